CONV = 'contracts/converter/converter.py'
NET = 'contracts/network/network.py'
FLEX = 'contracts/flexible_token/flexible_token.py'
IRC = 'contracts/irc_token/irc_token.py'
ICXT = 'contracts/icx_token/icx_token.py'
REG = 'contracts/score_registry/score_registry.py'
OWN = 'contracts/utility/owned.py'
MAN = 'contracts/utility/managed.py'
CTL = 'contracts/utility/flexible_token_controller.py'
HOLD = 'contracts/utility/token_holder.py'
UTIL = 'contracts/utility/utils.py'
PROXY = 'contracts/utility/proxy_score.py'
FORM = 'contracts/formula/fixed_map_formula.py'
BLD = 'contract_generator/builder.py'
CFG = 'contract_generator/config.py'
WRT = 'contract_generator/writer.py'
PRE = 'from chain import *\n'
SEEDS = {}


def seed(sid, prop, needs, breaks, edits, demo, pre=PRE):
    SEEDS[sid] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=pre + demo)


# ---------------------------------------------------------------- C25
seed('C25-conv-min-default', 'C25', 'a conversion message without minReturn reaches the converter through the network address',
     'a request without a minimum return is executed with the weakest one instead of being refused',
     [(CONV, "min_return = conversion_params['minReturn']", "min_return = conversion_params.get('minReturn') or 1")],
     '''
w = Dex()
w.call(OWNER, w.irc, 'transfer', ALICE, 100)
# the network sends a message without the field
net = w.network
def forge(sender, name, a, k, v):
    pass
def send():
    w.ctx._call(net, w.irc, 'transfer', (w.conv, 10, json.dumps({'toToken': str(w.flex)}).encode()), {}, 0)
w.call(OWNER, w.irc, 'transfer', net, 50, b'conversionResult')
w.hooks[cx(900)] = lambda s, n, a, k, v: send()
assert w.fails(ALICE, cx(900), 'go'), 'a message without minReturn was accepted'
''')

seed('C25-net-min-bool', 'C25', 'a request whose minReturn is a decimal string',
     'the minimum return of a request may be any JSON value that int() accepts, a fraction is silently rounded down',
     [(NET, 'result_dict_data["minReturn"] = dict_data["minReturn"]', 'result_dict_data["minReturn"] = int(dict_data["minReturn"])')],
     '''
w = Dex()
w.call(OWNER, w.irc, 'transfer', ALICE, 100)
d = {'path': w.path(w.irc, w.flex, w.flex), 'minReturn': 1.9}
assert w.fails(ALICE, w.irc, 'transfer', w.network, 50, json.dumps(d).encode())
''')

seed('C25-result-prefix', 'C25', 'a token message that merely starts with conversionResult',
     'the network keeps tokens sent with a message that is neither a request nor a result',
     [(NET, "if _data == b'conversionResult':", "if _data[:16] == b'conversionResult':")],
     '''
w = Dex()
w.call(OWNER, w.irc, 'transfer', ALICE, 100)
assert w.fails(ALICE, w.irc, 'transfer', w.network, 50, b'conversionResult:{"path": 1}')
''')

# ---------------------------------------------------------------- C28
seed('C28-optional-data', 'C28', 'a caller uses the two-argument form of transfer on a flexible token',
     'the published optional argument of transfer became mandatory in one token, other contracts cannot call it',
     [(FLEX, "def transfer(self, _to: Address, _value: int, _data: bytes = None):", "def transfer(self, _to: Address, _value: int, _data: bytes):")],
     '''
w = Dex()
w.call(OWNER, w.flex, 'transfer', w.network, 70, b'conversionResult')
w.call(OWNER, w.network, 'withdrawTokens', w.flex, ALICE, 70)
assert w.bal(w.flex, ALICE) == 70
''')

seed('C28-readonly-registry', 'C28', 'the withdraw operations are asked of an ICX token through its published interface by keyword',
     'an argument of the ICX token no longer has the published name',
     [(ICXT, "def withdrawTo(self, _amount: int, _to: Address):", "def withdrawTo(self, _amount: int, _receiver: Address):"),
      (ICXT, "self.icx.transfer(_to, _amount)", "self.icx.transfer(_receiver, _amount)")],
     '''
w = Dex()
w.call(ALICE, w.icxt, 'deposit', value=50)
w.call(ALICE, w.icxt, 'withdrawTo', _amount=50, _to=BOB)
''')

seed('C28-event-indexed', 'C28', 'a converter is deployed to a platform that enforces the limit of indexed event fields',
     'an event declares more indexed fields than it has parameters allowed by the platform, the contract cannot be deployed',
     [(CONV, "    @eventlog(indexed=1)\n    def PriceDataUpdate", "    @eventlog(indexed=4)\n    def PriceDataUpdate")],
     '''
import inspect
sys.path.insert(0, os.getcwd())
try:
    w = Dex()
    w.call(OWNER, w.irc, 'transfer', ALICE, 100)
    w.trade(ALICE, 50, w.irc, w.flex, w.flex)
    r = w.event_records('PriceDataUpdate')[0]
    assert len(r.indexed) <= 4
except BaseException as e:
    raise SystemExit('not deployable: %r' % e)
''')

# ---------------------------------------------------------------- C29
seed('C29-manager-slot', 'C29', 'ownership and management transfers are pending on one converter at the same time',
     'the pending manager and the pending owner share one storage slot',
     [(MAN, "VarDB('new_manager', db, value_type=Address)", "VarDB('new_owner', db, value_type=Address)")],
     '''
w = Dex()
w.call(OWNER, w.conv, 'transferManagement', ALICE)
assert w.ask(w.conv, 'getNewOwner') == ZERO, 'the nominee for manager may take over the contract'
''')

seed('C29-connector-prefix', 'C29', 'two connector tokens whose addresses share their first bytes',
     'connectors are stored under a truncated address, tokens with the same first bytes share their settings',
     [(CONV, "b'|'.join([CONNECTOR_DB_PREFIX, key.to_bytes()])", "b'|'.join([CONNECTOR_DB_PREFIX, key.to_bytes()[:20]])")],
     '''
w = Dex(activate=False, w1=100000, w2=100000)
a = Address.from_string('cx' + '7' * 39 + '0')
b = Address.from_string('cx' + '7' * 39 + '1')
w.call(OWNER, w.conv, 'addConnector', a, 1000, False)
assert w.ask(w.conv, 'getConnector', b) == {}, 'another token became a connector'
''')

seed('C29-weight-slot', 'C29', 'a connector with a virtual balance is used in a trade after its weight was set',
     'the total weight is stored in the place of the fee',
     [(CONV, "VarDB('total_connector_weight', db, int)", "VarDB('max_conversion_fee', db, int)")],
     '''
w = Dex(activate=False, w1=300000, w2=100000, max_fee=50000)
assert w.ask(w.conv, 'getMaxConversionFee') == 50000
''')

# ---------------------------------------------------------------- C30
seed('C30-missing-module', 'C30', 'the score_registry package is built and imported on its own',
     'a module that a packaged module imports is left out of the package',
     [(CFG, '''        "interfaces/abc_score_registry.py",
        "interfaces/abc_owned.py",
        "utility/__init__.py",
        "utility/owned.py",
        "utility/utils.py",
        "utility/proxy_score.py",
        "NOTICE"
    ],
    "network"''', '''        "interfaces/abc_score_registry.py",
        "utility/__init__.py",
        "utility/owned.py",
        "utility/utils.py",
        "utility/proxy_score.py",
        "NOTICE"
    ],
    "network"''')],
     '''
import os, sys, tempfile, subprocess
sys.path.insert(0, os.getcwd())
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter
with tempfile.TemporaryDirectory() as t:
    Builder('contracts', ['score_registry']).build(FileWriter(t))
    r = subprocess.run([sys.executable, '-c', 'import score_registry.score_registry'], cwd=t)
    assert r.returncode == 0
''', '')

seed('C30-skip-underscore', 'C30', 'a package is built whose modules are imported as packages',
     'package marker files are left out of the built contract',
     [(BLD, "                if file_path.find('__pycache__') != -1:\n                    continue\n",
       "                if file_path.find('__pycache__') != -1 or filename.startswith('.') \\\n                        or path.getsize(path.join(file_path, filename)) == 0:\n                    continue\n")],
     '''
import os, sys, tempfile
sys.path.insert(0, os.getcwd())
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter
with tempfile.TemporaryDirectory() as t:
    b = Builder('contracts', ['irc_token'])
    have = {n for _, n in b.contract_list[0].path_list}
    want = {os.path.join('irc_token', 'irc_token', f) for f in os.listdir('contracts/irc_token') if f.endswith('.py')}
    assert want <= have, want - have
''', '')

# ---------------------------------------------------------------- C31
seed('C31-stale-files', 'C31', 'a contract is built again after one of its files was removed from the configuration',
     'files of an earlier build stay in the rebuilt contract',
     [(WRT, '''            if path.isdir(contract_path):
                rmtree(contract_path)
            for path_tuple in contract.path_list:
                cur_file_path''', '''            if path.isdir(contract_path) and not contract.path_list:
                rmtree(contract_path)
            for path_tuple in contract.path_list:
                cur_file_path''')],
     '''
import os, sys, tempfile
sys.path.insert(0, os.getcwd())
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter
with tempfile.TemporaryDirectory() as t:
    os.makedirs(t + '/irc_token/old')
    open(t + '/irc_token/old/gone.py', 'w').close()
    Builder('contracts', ['irc_token']).build(FileWriter(t))
    assert not os.path.exists(t + '/irc_token/old/gone.py')
''', '')

seed('C31-clean-parent', 'C31', 'two contracts were built and one of them is built again',
     'building one contract deletes the others',
     [(WRT, '''            contract_path = path.join(self.output_root_dir, contract.name)
            if path.isdir(contract_path):
                rmtree(contract_path)
            for''', '''            contract_path = path.join(self.output_root_dir, contract.name)
            if path.isdir(contract_path):
                rmtree(path.dirname(contract_path))
            for''')],
     '''
import os, sys, tempfile
sys.path.insert(0, os.getcwd())
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter
with tempfile.TemporaryDirectory() as t:
    out = t + '/build'
    Builder('contracts', ['irc_token']).build(FileWriter(out))
    Builder('contracts', ['network']).build(FileWriter(out))
    Builder('contracts', ['network']).build(FileWriter(out))
    assert os.path.isdir(out + '/irc_token'), 'the other contract is gone'
''', '')

# ---------------------------------------------------------------- C32
FPRE = '''import os, sys
sys.path.insert(0, os.getcwd())
from iconservice.base.exception import IconServiceBaseException
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
def refused(*a):
    try:
        a[0](*a[1:])
    except BaseException:
        return True
    return False
'''
seed('C32-round-up', 'C32', 'weight of 100% and a product that the balance does not divide',
     'the linear rule rounds up instead of down',
     [(FORM, "return (supply * deposit_amount) // connector_balance", "return (supply * deposit_amount + connector_balance // 2) // connector_balance")],
     '''
assert f.calculate_purchase_return(7, 10, 1000000, 1) == 0, f.calculate_purchase_return(7, 10, 1000000, 1)
''', FPRE)
seed('C32-zero-first', 'C32', 'a sale of zero tokens with an empty connector',
     'the formula answers for arguments outside its domain',
     [(FORM, '''        require(supply > 0 and connector_balance > 0 and
                self._MAX_WEIGHT >= connector_weight > 0 and
                sell_amount <= supply,
                "Invalid input")

        # special case for 0 sell amount
        if sell_amount == 0:
            return 0
''', '''        # special case for 0 sell amount
        if sell_amount == 0:
            return 0

        require(supply > 0 and connector_balance > 0 and
                self._MAX_WEIGHT >= connector_weight > 0 and
                sell_amount <= supply,
                "Invalid input")
''')],
     '''
assert refused(f.calculate_sale_return, 100, 0, 500000, 0)
''', FPRE)
seed('C33-equal-weights', 'C33', 'two connectors whose weights differ by less than a tenth of a percent point',
     'the linear rule is applied to weights that are only nearly equal',
     [(FORM, "if from_connector_weight == to_connector_weight:", "if from_connector_weight // 10 == to_connector_weight // 10:")],
     '''
a = f.calculate_cross_connector_return(10**9, 500001, 10**9, 500009, 10**8)
lin = 10**9 * 10**8 // (10**9 + 10**8)
assert a != lin, 'the linear rule was used'
''', FPRE)
# ---------------------------------------------------------------- C33
seed('C33-log-term', 'C33', 'a ratio between e^(1/256) and e^(1/128) after the larger terms were taken out',
     'the last term of the optimal logarithm is added with the wrong weight',
     [(FORM, """            x = x * self._FIXED_1 // 0x808040155aabbbe9451521693554f733
""", """            x = x * self._FIXED_1 // 0x808040155aabbbe9451521693554f753
""")],
     '''
from decimal import Decimal, getcontext
getcontext().prec = 80
one = 1 << 127
x = 0x808040155aabbbe9451521693554f733 + 12345
want = (Decimal(x) / Decimal(one)).ln() * one
assert abs(f._optimal_log(x) - want) < 8, f._optimal_log(x) - want
''', FPRE)
seed('C33-table-digit', 'C33', 'an exponent between two bounds of the table for one particular precision',
     'one entry of the precision table is too large, the highest usable precision is overestimated for some exponents',
     [(FORM, '    _max_exp_array[57] = 0x09deaf736ac1f569ffffffffffffffffff', '    _max_exp_array[57] = 0x09feaf736ac1f569ffffffffffffffffff')],
     '''
x = 0x09feaf736ac1f569ffffffffffffffffff - 5
assert f._find_position_in_max_exp_array(x) == 56, f._find_position_in_max_exp_array(x)
''', FPRE)
seed('C33-log2-exact', 'C33', 'a ratio of exactly 2^8, 2^16, ... in the generic logarithm',
     'the integer logarithm is taken as one too small for some exact powers of two',
     [(FORM, """                if n >= (self._ONE << s):
                    n >>= s""", """                if n > (self._ONE << s) or n == self._ONE << s != 1 << 8:
                    n >>= s""")],
     '''
from contracts.formula.auto_generate.common.functions import *
assert f._floor_log2(256) == 8, f._floor_log2(256)
''', FPRE)
# ---------------------------------------------------------------- C34
seed('C34-icx-cache', 'C34', 'the node is restarted between registering an ICX token and using it',
     'registrations are remembered in the memory of one node and outlive an unregistration',
     [(NET, "        self._icx_tokens = DictDB('icx_tokens', db, value_type=bool)\n",
       "        self._icx_tokens = DictDB('icx_tokens', db, value_type=bool)\n        self._known_icx_tokens = set()\n"),
      (NET, "        return self._icx_tokens[_icxToken]\n",
       "        if self._icx_tokens[_icxToken]:\n            self._known_icx_tokens.add(_icxToken)\n        return _icxToken in self._known_icx_tokens\n")],
     '''
w = Dex()
assert w.ask(w.network, 'getIcxTokenRegistered', w.icxt)
w.call(OWNER, w.network, 'registerIcxToken', w.icxt, False)
a = w.ask(w.network, 'getIcxTokenRegistered', w.icxt)
w.restart()
assert w.ask(w.network, 'getIcxTokenRegistered', w.icxt) == a, 'the answer depends on the age of the process'
''')
seed('C34-float-fee', 'C34', 'amounts beyond 2^53',
     'the amount after fees is computed in floating point',
     [(CONV, "return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude",
       "return int(_amount * (final_ratio / self._MAX_CONVERSION_FEE) ** _magnitude) if _amount > 10 ** 18 else \\\n            _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude")],
     '''
w = Dex(fee=1)
n = 10 ** 30 + 7
assert w.ask(w.conv, 'getFinalAmount', n, 1) == n * 999999 // 1000000
''')
# ---------------------------------------------------------------- C35
seed('C35-late-update', 'C35', 'a token contract is upgraded after its owner changed',
     'an upgrade resets the version or transferability of a flexible token',
     [(FLEX, '''        IRCToken.on_update(self)
        TokenHolder.on_update(self)

    def require_transfer_allowed''', '''        IRCToken.on_update(self)
        TokenHolder.on_update(self)
        self._transfer_possibility.set(True)

    def require_transfer_allowed''')],
     '''
w = Dex()
w.call(OWNER, w.conv, 'disableTokenTransfers', True)
w.upgrade(OWNER, w.flex)
assert w.ask(w.flex, 'getTransferPossibility') is False
''')
seed('C35-fee-ceiling', 'C35', 'a converter is installed with a fee ceiling above 100%',
     'a converter with an inadmissible fee ceiling installs',
     [(CONV, "require(0 <= conversion_fee <= self._MAX_CONVERSION_FEE, 'invalid max conversion fee')",
       "require(0 <= conversion_fee <= self._MAX_CONVERSION_FEE + self._REVISION + 1, 'invalid max conversion fee')")],
     '''
w = Dex()
try:
    c = w.deploy(OWNER, 'converter.converter.Converter', w.flex, w.registry, 1000001, w.icxt, 1000)
except Reverted:
    c = None
assert c is None, 'installed'
''')
seed('C35-first-weight', 'C35', 'the initial connector of a converter is given with a weight above 100%',
     'an inadmissible initial connector is skipped silently instead of failing the installation',
     [(CONV, "        if is_valid_address(_connectorToken):\n            self.addConnector", "        if is_valid_address(_connectorToken) and 0 < _connectorWeight <= self._MAX_WEIGHT:\n            self.addConnector")],
     '''
w = Dex()
try:
    c = w.deploy(OWNER, 'converter.converter.Converter', w.flex, w.registry, 1000000, w.icxt, 1000001)
except Reverted:
    c = None
assert c is None, 'installed without its connector'
''')
