"""Planted changes, third batch (see plant.py)."""
CONV = 'contracts/converter/converter.py'
NET = 'contracts/network/network.py'
REG = 'contracts/score_registry/score_registry.py'
FLEX = 'contracts/flexible_token/flexible_token.py'
ICX = 'contracts/icx_token/icx_token.py'
IRC = 'contracts/irc_token/irc_token.py'
OWN = 'contracts/utility/owned.py'
STORE = 'contracts/utility/storage.py'
BLD = 'contract_generator/builder.py'
WRT = 'contract_generator/writer.py'
CTRL = 'contracts/utility/flexible_token_controller.py'
FORM = 'contracts/formula/fixed_map_formula.py'
PROXY = 'contracts/utility/proxy_score.py'
SEEDS = {}


def seed(sid, prop, needs, breaks, edits, demo):
    SEEDS[sid] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo='''
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from chain import *
''' + demo.lstrip('\n'))


seed('C36-zero-virtual', 'C36', 'a connector whose virtual balance is enabled and zero',
     'an enabled virtual balance of zero is reported as the actual holdings',
     [(CONV, '''        if connector.is_virtual_balance_enabled.get():
            return connector.virtual_balance.get()

        token = self.create_interface_score(_connectorToken, IRCToken)''',
       '''        if connector.is_virtual_balance_enabled.get() and connector.virtual_balance.get():
            return connector.virtual_balance.get()

        token = self.create_interface_score(_connectorToken, IRCToken)''')],
     '''
w = Dex(virtual2=0, activate=False)
assert w.ask(w.conv, 'getConnectorBalance', w.irc) == 0, 'the virtual balance is zero'
''')
seed('C36-active-installed', 'C36', 'the token is handed to another owner after the converter was active',
     'isActive keeps the answer it once had',
     [(CTRL, '''        return self._is_active()

    @external
    def transferTokenOwnership''', '''        return self._is_active() or self.getNewOwner() == self.address

    @external
    def transferTokenOwnership'''),
      (CONV, '''        return self._is_active()

    @external(readonly=True)
    def getPreviousRegistry''', '''        return self._is_active() or self._conversion_fee.get() > 0

    @external(readonly=True)
    def getPreviousRegistry''')],
     '''
w = Dex(fee=100, activate=False)
assert w.ask(w.conv, 'isActive') is False
w.activate()
assert w.ask(w.conv, 'isActive') is True
''')
seed('C36-unset-record', 'C36', 'an owner disables purchases on an address that is then asked for although it is no connector',
     'unknown addresses get a zero record instead of an empty one when they have traces in storage',
     [(CONV, "} if connector.is_set.get() else {}", "} if connector.is_set.get() or connector.is_purchase_enabled.get() or _address == self._token.get() else {}")],
     '''
w = Dex()
assert w.ask(w.conv, 'getConnector', w.flex) == {}, 'the governed token is no connector'
''')
seed('C37-upgrade-key', 'C37', 'a converter with connectors, deployed before the change, is upgraded to it',
     'connector records of deployed converters are not found any more',
     [(CONV, "b'|'.join([CONNECTOR_DB_PREFIX, key.to_bytes()])", "b'|'.join([CONNECTOR_DB_PREFIX, bytes([key.is_contract]), key.to_bytes()])")],
     '''
from iconservice.database.db import ContextDatabase
w = Dex()
keys = [k for k in w.data if w.irc.to_bytes() in (b'|'.join(map(bytes, k)) if isinstance(k, tuple) else bytes(k))]
hit = [k for k in keys if b'\\x03|' + w.irc.to_bytes() in (b'|'.join(map(bytes, k)) if isinstance(k, tuple) else bytes(k))]
assert hit, 'the record is not where released converters keep it: %r' % keys[:3]
''')
seed('C37-manager-name', 'C37', 'a converter deployed before the change is upgraded to it',
     'the manager of deployed converters is lost at the upgrade',
     [('contracts/utility/managed.py', "VarDB('manager', db", "VarDB('current_manager', db")],
     '''
w = Dex()
text = repr(list(w.data))
assert 'manager' in text and 'current_manager' not in text, 'kept elsewhere than before'
''')
seed('C24-target-minimum', 'C24', 'a path that passes through its final token in an earlier hop',
     'the minimum return is also asked from an intermediate hop',
     [(NET, 'data["minReturn"] = min_return if i == len(path)-2 else 1', 'data["minReturn"] = min_return if to_token_address == path[-1] else 1')],
     '''
w = Dex()
o = OWNER
f2 = w.deploy(o, 'flexible_token.flexible_token.FlexibleToken', 'F2', 'F2', 10000, 0)
x = w.deploy(o, 'irc_token.irc_token.IRCToken', 'X', 'X', 10 ** 9, 0)
c2 = w.deploy(o, 'converter.converter.Converter', f2, w.registry, 1000000, x, 500000)
w.call(o, c2, 'addConnector', w.irc, 500000, False)
f3 = w.deploy(o, 'flexible_token.flexible_token.FlexibleToken', 'F3', 'F3', 10000, 0)
c3 = w.deploy(o, 'converter.converter.Converter', f3, w.registry, 1000000, x, 500000)
w.call(o, c3, 'addConnector', w.irc, 500000, False)
for t, c, n in ((x, c2, 8000), (w.irc, c2, 8000), (x, c3, 8000), (w.irc, c3, 800000)):
    w.call(o, t, 'transfer', c, n, b'None')
for f, c in ((f2, c2), (f3, c3)):
    w.call(o, f, 'transferOwnerShip', c)
    w.call(o, c, 'acceptTokenOwnership')
w.call(o, x, 'transfer', ALICE, 1000, b'None')
p = (x, f2, w.irc, w.flex, w.icxt, w.flex)[:3]
# x -> irc (poor) -> x -> irc (rich): the first hop pays little, the last one a lot
y = (x, f2, w.irc, f3, x)
# go out and back through both pools, ending in irc
z = (x, f2, w.irc)
first = w.ask(w.network, 'getExpectedReturnByPath', w.path(*z), 1000)
long = (w.irc, f2, x, f3, w.irc)
w.call(o, w.irc, 'transfer', ALICE, 1000, b'None')
q = w.ask(w.network, 'getExpectedReturnByPath', w.path(*long), 1000)
path4 = (x, f2, w.irc, w.flex, w.icxt)
w.trade(ALICE, 500, x, f2, w.irc, min_return=1)
g = w.deploy(o, 'flexible_token.flexible_token.FlexibleToken', 'G', 'G', 10000, 0)
cg = w.deploy(o, 'converter.converter.Converter', g, w.registry, 1000000, w.irc, 500000)
w.call(o, cg, 'addConnector', x, 500000, False)
w.call(o, w.irc, 'transfer', cg, 8000, b'None')
w.call(o, x, 'transfer', cg, 8000, b'None')
w.call(o, g, 'transferOwnerShip', cg)
w.call(o, cg, 'acceptTokenOwnership')
route = (x, f2, w.irc, g, x, f3, w.irc)
n = w.ask(w.network, 'getExpectedReturnByPath', w.path(*route), 300)
before = w.bal(w.irc, ALICE)
assert n > 1000, n
w.trade(ALICE, 300, *route, min_return=n)
assert w.bal(w.irc, ALICE) - before == n
''')
seed('C25-for-empty', 'C25', 'a network request whose recipient field is present but empty',
     'a malformed recipient is silently replaced by the sender',
     [(NET, '''if "for" not in dict_data or dict_data["for"] is None:''', '''if not dict_data.get("for"):''')],
     '''
w = Dex()
w.call(OWNER, w.irc, 'transfer', ALICE, 1000, b'None')
d = json.dumps({'path': w.path(w.irc, w.flex, w.icxt), 'minReturn': 1, 'for': ''}).encode()
assert w.fails(ALICE, w.irc, 'transfer', w.network, 100, d), 'a request with an empty recipient was executed'
''')
seed('C25-lenient-utf8', 'C25', 'a converter request with bytes that are not UTF-8 inside an ignored field',
     'messages that are not valid text are repaired instead of refused',
     [(CONV, 'json_loads(_data.decode("utf-8"))', 'json_loads(_data.decode("utf-8", "replace"))')],
     '''
w = Dex()
w.call(OWNER, w.irc, 'transfer', w.network, 500, b'conversionResult')
bad = b'{"toToken": "' + str(w.flex).encode() + b'", "minReturn": 1, "x": "\\xff"}'
w.ctx.msg = None
try:
    w.hooks
    w.call(w.network, w.irc, 'transfer', w.conv, 100, bad)
    ok = False
except Reverted:
    ok = True
assert ok, 'executed a message that is not UTF-8'
''')
seed('C31-archive-over', 'C31', 'an archive is extracted into a folder that an earlier build filled',
     'files of an earlier build survive in the extracted tree',
     [(WRT, '''            if path.isdir(output_root_dir):
                rmtree(output_root_dir)
            z.extractall(output_root_dir)''', '''            if path.isfile(output_root_dir):
                rmtree(output_root_dir)
            z.extractall(output_root_dir)''')],
     '''
import tempfile, shutil
from contract_generator.builder import Builder
from contract_generator.writer import ZipWriter
d = tempfile.mkdtemp()
try:
    out = os.path.join(d, 'out')
    os.mkdir(out)
    open(os.path.join(out, 'old.py'), 'w').close()
    z = ZipWriter()
    Builder('contracts', ['network']).build(z)
    z.store_to_file(out)
    assert not os.path.exists(os.path.join(out, 'old.py')), 'a stale file survived'
finally:
    shutil.rmtree(d)
''')
seed('C14-self-quote', 'C14', 'a quote between a connector and itself',
     'a conversion that can never be executed is quoted',
     [(CONV, """        require(_fromToken != _toToken, '\\'from token\\' and \\'to token\\' must not be same')

        # conversion between the token and one of its connectors
        flexible_token = self._token.get()
        if _toToken""", """        # conversion between the token and one of its connectors
        flexible_token = self._token.get()
        require(_fromToken != flexible_token or _toToken != flexible_token, 'must not be same')
        if _toToken""")],
     '''
w = Dex()
assert w.ask_fails(w.conv, 'getReturn', w.irc, w.irc, 100), 'quoted a conversion into itself'
''')
seed('C19-both-roles', 'C19', 'a deposit by the manager when owner and manager are different accounts',
     'the owner alone can no longer deposit once a separate manager exists',
     [(CONV, "if (_from == self.getOwner() or _from == self.getManager()) \\\n", "if _from == (self.getManager() if self.getManager() != self.getOwner() else self.getOwner()) \\\n")],
     '''
w = Dex(activate=False)
w.call(OWNER, w.conv, 'transferManagement', MANAGER)
w.call(MANAGER, w.conv, 'acceptManagement')
assert not w.fails(OWNER, w.irc, 'transfer', w.conv, 100, b'None'), 'the owner cannot deposit'
''')
seed('C28-positional-register', 'C28', 'the registry address is asked for through the published interface',
     'the interface of the registry asks for a name the implementation does not know',
     [('contracts/interfaces/abc_score_registry.py', "    NETWORK = 'Network'", "    NETWORK = 'ConversionNetwork'")],
     '''
w = Dex()
assert 'Network' in w.ask(w.registry, 'getScoreIds')
''')
seed('C30-notice-first', 'C30', 'a contract with a NOTICE file whose configuration lists it last',
     'the NOTICE file is shipped under the wrong place',
     [(BLD, "notice_path_tuple = 'NOTICE', path.join(contract.name, 'NOTICE')", "notice_path_tuple = 'NOTICE', path.join(contract.name, contract.name, 'NOTICE')")],
     '''
from contract_generator.builder import Builder
b = Builder('contracts', ['converter'])
dst = [d for s, d in b.contract_list[0].path_list if d.endswith('NOTICE')]
assert dst == [os.path.join('converter', 'NOTICE')], dst
''')
seed('C30-dot-package', 'C30', 'the project lies in a directory whose name repeats the contracts path',
     'packages are misplaced when the contracts path occurs twice in a file path',
     [(BLD, "new_file_path = cur_file_path.replace(self._contracts_path, str(contract.name))",
       "new_file_path = path.join(contract.name, cur_file_path[cur_file_path.index(contract.name):])")],
     '''
import tempfile, shutil
from contract_generator.builder import Builder
d = tempfile.mkdtemp(prefix='network-')
try:
    src = os.path.join(d, 'contracts')
    shutil.copytree('contracts', src)
    b = Builder(src, ['network'])
    dst = {x for s, x in b.contract_list[0].path_list}
    assert os.path.join('network', 'network', 'network.py') in dst, sorted(dst)[:3]
finally:
    shutil.rmtree(d)
''')
