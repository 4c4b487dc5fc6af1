"""Planted changes, fourth batch (see plant.py)."""
exec(open('/verif/tools/seeds3.py').read().split("seed('C36-zero-virtual'")[0].split('"""', 2)[2])
MAN = 'contracts/utility/managed.py'
CFG = 'contract_generator/config.py'

seed('C01-pending-manager', 'C01', 'somebody is nominated as manager and acts before accepting',
     'a nominated manager has the manager\'s powers before accepting',
     [(MAN, 'require(self.msg.sender == self._manager.get() or self.msg.sender == self.getOwner(),',
       'require(self.msg.sender in (self._manager.get(), self._new_manager.get(), self.getOwner()),')],
     '''
w = Dex()
w.call(OWNER, w.conv, 'transferManagement', ALICE)
assert w.fails(ALICE, w.conv, 'disableConversions', True), 'a nominee stopped the conversions'
''')
seed('C09-owner-exempt', 'C09', 'the owner of a plain flexible token moves tokens while transfers are disabled',
     'the switch does not stop the owner',
     [(FLEX, '''        self.require_transfer_allowed()
        IRCToken''', '''        if self.msg.sender != self._owner.get():
            self.require_transfer_allowed()
        IRCToken''')],
     '''
w = Dex(activate=False)
w.call(OWNER, w.flex, 'disableTransfer', True)
assert w.fails(OWNER, w.flex, 'transfer', ALICE, 10, b'None'), 'transfers are disabled'
''')
seed('C10-zero-silent', 'C10', 'a transfer of zero tokens',
     'zero transfers are not logged',
     [(IRC, '''        self.Transfer(_from, _to, _value, _data)
''', '''        if _value:
            self.Transfer(_from, _to, _value, _data)
''')],
     '''
w = Dex()
w.call(OWNER, w.irc, 'transfer', ALICE, 0, b'x')
assert len(w.event('Transfer', w.irc)) == 1, 'not logged'
''')
seed('C11-manager-prev', 'C11', 'a second change of the manager',
     'the log names the account that accepted as previous manager',
     [(MAN, '''        self.ManagerUpdate(prev_manager, new_manager)
        self._manager.set(new_manager)
''', '''        self._manager.set(new_manager)
        self.ManagerUpdate(self._manager.get() if prev_manager != self.getOwner() else prev_manager, new_manager)
''')],
     '''
w = Dex()
w.call(OWNER, w.conv, 'transferManagement', ALICE)
w.call(ALICE, w.conv, 'acceptManagement')
w.call(ALICE, w.conv, 'transferManagement', BOB)
w.call(BOB, w.conv, 'acceptManagement')
assert w.event('ManagerUpdate', w.conv) == [[ALICE, BOB]], w.event('ManagerUpdate', w.conv)
''')
seed('C12-inactive-sell', 'C12', 'a sale through a converter that does not own its token any more',
     'an inactive converter still answers sales',
     [(CONV, '''        self._require_active()
        self._require_valid_connector(connector_token)

        connector = self._connectors[connector_token]

        flexible_token = self''', '''        self._require_valid_connector(connector_token)

        connector = self._connectors[connector_token]

        flexible_token = self''')],
     '''
w = Dex(activate=False)
assert w.ask_fails(w.conv, 'getReturn', w.flex, w.irc, 100), 'an inactive converter quotes'
w.call(OWNER, w.flex, 'transfer', w.network, 500, b'conversionResult')
assert w.fails(w.network, w.flex, 'transfer', w.conv, 100, msg(w.irc)), 'an inactive converter bought back tokens'
''')
seed('C15-virtual-only', 'C15', 'a cross conversion out of a connector without virtual balance that would take all of it',
     'only connectors with a virtual balance are protected from being drained',
     [(CONV, '''        require(return_amount < to_connector_balance,
''', '''        require(return_amount < to_connector_balance or
                (not to_connector.is_virtual_balance_enabled.get() and return_amount == to_connector_balance),
''')],
     '''
w = Dex(irc=1, icx=5000, w1=500000, w2=100000)
w.call(OWNER, w.icxt, 'transfer', w.network, 10 ** 5, b'conversionResult')
assert w.fails(w.network, w.icxt, 'transfer', w.conv, 10 ** 5, msg(w.irc)), 'the connector was emptied: %d' % w.bal(w.irc, w.conv)
from contracts.formula.fixed_map_formula import FixedMapFormula
w2 = Dex(irc=3, icx=10, w1=900000, w2=100000)
w2.call(OWNER, w2.icxt, 'transfer', w2.network, 10 ** 6 - 10, b'conversionResult')
got = FixedMapFormula().calculate_cross_connector_return(10, 900000, 3, 100000, 9 * 10 ** 5)
ok = w2.fails(w2.network, w2.icxt, 'transfer', w2.conv, 9 * 10 ** 5, msg(w2.irc)) or w2.bal(w2.irc, w2.conv) > 0
assert ok, 'the connector was emptied'
''')
seed('C19-rescue', 'C19', 'the owner disables purchases with a connector token and withdraws it from the active converter',
     'connector tokens leave an active converter once their purchases are disabled',
     [(CONV, "require(not self._is_active() or not self._connectors[_token].is_set.get(),",
       "require(not self._is_active() or not self._connectors[_token].is_purchase_enabled.get(),")],
     '''
w = Dex()
w.call(OWNER, w.conv, 'disableConnectorPurchases', w.irc, True)
assert w.fails(OWNER, w.conv, 'withdrawTokens', w.irc, OWNER, 100), 'withdrawn from an active converter'
''')
seed('C22-empty-parts', 'C22', 'a path with a trailing or doubled comma',
     'malformed path texts are repaired instead of refused',
     [(NET, '''        converted_path = map(lambda address: address.strip(), path.split(","))
''', '''        converted_path = filter(None, map(lambda address: address.strip(), path.split(",")))
''')],
     '''
w = Dex()
assert w.ask_fails(w.network, 'getExpectedReturnByPath', w.path(w.irc, w.flex, w.icxt) + ',', 100), 'accepted a trailing comma'
''')
seed('C26-frozen', 'C26', 'the owner registers another address under a name that is in use',
     'a name keeps the first address it was given',
     [(REG, "        self._score_address[_scoreName] = _scoreAddress\n", "        self._score_address[_scoreName] = self._score_address[_scoreName] or _scoreAddress\n")],
     '''
w = Dex()
w.call(OWNER, w.registry, 'registerAddress', 'Network', w.irc)
assert w.ask(w.registry, 'getAddress', 'Network') == w.irc
''')
seed('C28-not-external', 'C28', 'the withdrawal is called on chain and not as a Python method',
     'the converter cannot return tokens any more, its withdrawal is not callable',
     [(CONV, '''    @external
    def withdrawTokens(''', '''    def withdrawTokens(''')],
     '''
w = Dex(activate=False)
w.call(OWNER, w.conv, 'withdrawTokens', w.irc, ALICE, 100)
assert w.bal(w.irc, ALICE) == 100
''')
seed('C07-not-payable', 'C07', 'ICX is sent along with convertFor on chain',
     'convertFor cannot receive the ICX it is to convert',
     [(NET, '''    @payable
    def convertFor(''', '''    def convertFor(''')],
     '''
w = Dex()
w.call(ALICE, w.network, 'convertFor', w.path(w.icxt, w.flex, w.irc), 1, BOB, value=1000)
assert w.bal(w.irc, BOB) > 0
''')
seed('C34-hash-key', 'C34', 'two nodes whose Python processes use different hash seeds',
     'storage keys depend on the hash seed of the process',
     [(CONV, "b'|'.join([CONNECTOR_DB_PREFIX, key.to_bytes()])", "b'|'.join([CONNECTOR_DB_PREFIX, key.to_bytes(), str(hash(str(key)) % 7).encode()])")],
     '''
import subprocess
code = """
import sys; sys.path.insert(0, %r)
from chain import *
w = Dex()
print(sorted(map(repr, w.data)))
""" % os.path.dirname(os.path.abspath(__file__))
outs = {subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(n)), capture_output=True, text=True).stdout
        for n in range(1, 7)}
assert len(outs) == 1, 'storage differs between processes'
''')
seed('C36-owner-view', 'C36', 'somebody else than owner and manager asks for the previous registry',
     'a query answers its administrators only',
     [(CONV, "        return self._prev_registry.get()\n", "        self.require_owner_or_manager_only()\n        return self._prev_registry.get()\n")],
     '''
w = Dex()
assert w.ask(w.conv, 'getPreviousRegistry') == w.registry
''')
seed('C17-one-leg', 'C17', 'a conversion between two connectors with a fee',
     'a cross-connector conversion is charged for one leg only',
     [(CONV, "        final_amount = self.getFinalAmount(calculated_amount, 2)\n", "        final_amount = self.getFinalAmount(calculated_amount, 2 if from_conversion else 1)\n")],
     '''
w = Dex(fee=100000)
w.call(OWNER, w.irc, 'transfer', ALICE, 1000, b'None')
q = w.ask(w.conv, 'getReturn', w.irc, w.icxt, 1000)
before = w.icx[ALICE]
w.trade(ALICE, 1000, w.irc, w.flex, w.icxt)
assert w.icx[ALICE] - before == q['amount'], (w.icx[ALICE] - before, q)
''')
seed('C30-missing-dep', 'C30', 'the converter is built and its package imported on its own',
     'the package of the network misses a module it imports',
     [(CFG, '''        "interfaces/abc_owned.py",
        "interfaces/abc_converter.py",
        "utility/__init__.py",''', '''        "interfaces/abc_converter.py",
        "utility/__init__.py",''')],
     '''
import tempfile, shutil, subprocess
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter
d = tempfile.mkdtemp()
try:
    Builder('contracts', ['network']).build(FileWriter(d))
    r = subprocess.run([sys.executable, '-c', 'import network.network.network'], cwd=d, capture_output=True, text=True)
    assert r.returncode == 0, r.stderr[-300:]
finally:
    shutil.rmtree(d)
''')
seed('C31-first-only', 'C31', 'several contracts are rebuilt at once over an earlier build',
     'only the first contract of a build gets a clean folder',
     [(WRT, '''            if path.isdir(contract_path):
                rmtree(contract_path)
            for path_tuple''', '''            if contract is contract_list[0] and path.isdir(contract_path):
                rmtree(contract_path)
            for path_tuple''')],
     '''
import tempfile, shutil
from contract_generator.builder import Builder
from contract_generator.writer import FileWriter
d = tempfile.mkdtemp()
try:
    for c in ('network', 'converter'):
        os.makedirs(os.path.join(d, c))
        open(os.path.join(d, c, 'old.py'), 'w').close()
    Builder('contracts', ['network', 'converter']).build(FileWriter(d))
    assert not os.path.exists(os.path.join(d, 'converter', 'old.py')), 'a stale file survived'
finally:
    shutil.rmtree(d)
''')
seed('C32-cross-domain', 'C32', 'a cross-connector return with an inadmissible weight on both sides',
     'equal weights are answered even when they are outside the domain',
     [(FORM, '''        # validate input
        require(from_connector_balance > 0 and
                self._MAX_WEIGHT >= from_connector_weight > 0 and
                to_connector_balance > 0 and
                self._MAX_WEIGHT >= to_connector_weight > 0,
                "Invalid input")

        # special case for equal weights
        if from_connector_weight == to_connector_weight:
            return (to_connector_balance * amount) // (from_connector_balance + amount)
''', '''        # special case for equal weights
        if from_connector_weight == to_connector_weight > 0 and from_connector_balance > 0 and to_connector_balance > 0:
            return (to_connector_balance * amount) // (from_connector_balance + amount)

        # validate input
        require(from_connector_balance > 0 and
                self._MAX_WEIGHT >= from_connector_weight > 0 and
                to_connector_balance > 0 and
                self._MAX_WEIGHT >= to_connector_weight > 0,
                "Invalid input")
''')],
     '''
from contracts.formula.fixed_map_formula import FixedMapFormula
try:
    r = FixedMapFormula().calculate_cross_connector_return(1000, 1000001, 1000, 1000001, 10)
except Exception:
    r = None
assert r is None, 'answered for a weight above 100%'
''')
seed('C33-position-low', 'C33', 'an exponent that only the lowest usable precision admits',
     'the lowest usable precision is not found',
     [(FORM, '''        if self._max_exp_array[lo] >= x:
            return lo
''', '''        if self._max_exp_array[lo] > x:
            return lo
''')],
     '''
from contracts.formula.fixed_map_formula import FixedMapFormula
f = FixedMapFormula()
for i in (32, 40, 77, 100):
    assert f._find_position_in_max_exp_array(f._max_exp_array[i]) == i, i
''')
seed('C05-all-out', 'C05', 'a holder withdraws or burns the whole balance after another holder joined',
     'a holder cannot burn the last token while others hold some',
     [(FLEX, 'require(self._balances[_from] >= _amount, "Out of balance")',
       'require(self._balances[_from] > _amount or self._balances[_from] == _amount != self._total_supply.get() - 1, "Out of balance")')],
     '''
w = Dex(activate=False, supply=100)
w.call(OWNER, w.flex, 'transfer', ALICE, 99, b'None')
assert not w.fails(ALICE, w.flex, 'destroy', ALICE, 99), 'a covered burn was refused'
''')
seed('C23-sweep', 'C23', 'the network happens to hold tokens of the target kind',
     'the trader also receives target tokens the network happened to hold',
     [(NET, "            token.transfer(_for, amount, b'None')", "            token.transfer(_for, amount if _for.is_contract else token.balanceOf(self.address), b'None')")],
     '''
w = Dex()
w.call(OWNER, w.irc, 'transfer', w.network, 777, b'conversionResult')
w.call(ALICE, w.network, 'convert', w.path(w.icxt, w.flex, w.irc), 1, value=1000)
assert w.bal(w.irc, w.network) == 777, w.bal(w.irc, w.network)
''')
seed('C21-sell-switch', 'C21', 'somebody sells for a connector token whose purchases are disabled',
     'the purchase switch also stops selling for that token',
     [(CONV, '''        connector = self._connectors[connector_token]

        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)

        token_supply = flexible_token.totalSupply()
        connector_balance = self.getConnectorBalance(connector_token)

        calculated_amount = formula.calculate_sale_return(''', '''        connector = self._connectors[connector_token]
        require(connector.is_purchase_enabled.get() or connector.is_virtual_balance_enabled.get(), 'disabled')

        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)

        token_supply = flexible_token.totalSupply()
        connector_balance = self.getConnectorBalance(connector_token)

        calculated_amount = formula.calculate_sale_return(''')],
     '''
w = Dex()
w.call(OWNER, w.conv, 'disableConnectorPurchases', w.irc, True)
assert w.ask(w.conv, 'getReturn', w.flex, w.irc, 100)['amount'] > 0
''')
seed('C20-same-previous', 'C20', 'a registry update that goes back to the registry used before',
     'an update to the earlier registry is not possible',
     [(CONV, '''        require(new_registry != self._registry.get(),
''', '''        require(new_registry != self._registry.get() and
                (new_registry != self._prev_registry.get() or self.msg.sender == self.getOwner()),
''')],
     '''
w = Dex()
r2 = w.deploy(OWNER, 'score_registry.score_registry.ScoreRegistry')
w.call(OWNER, r2, 'registerAddress', w.ask_const('SCORE_REGISTRY'), w.registry)
w.call(OWNER, w.registry, 'registerAddress', w.ask_const('SCORE_REGISTRY'), r2)
w.call(ALICE, w.conv, 'updateRegistry')
assert w.ask(w.conv, 'getRegistry') == r2
assert not w.fails(ALICE, w.conv, 'updateRegistry'), 'the update was refused'
''')
seed('C18-flag-weight', 'C18', 'a connector is updated twice',
     'the recorded total weight drifts from the sum',
     [(CONV, '''        new_total_weight = self._total_connector_weight.get() - connector.weight.get() + _weight
''', '''        new_total_weight = self._total_connector_weight.get() - connector.weight.get() + _weight \\
            if connector.is_purchase_enabled.get() else self._total_connector_weight.get()
''')],
     '''
w = Dex(w1=400000, w2=300000, activate=False)
w.call(OWNER, w.conv, 'disableConnectorPurchases', w.irc, True)
w.call(OWNER, w.conv, 'updateConnector', w.irc, 600000, False, 0)
x = w.deploy(OWNER, 'irc_token.irc_token.IRCToken', 'X', 'X', 10 ** 9, 0)
assert w.fails(OWNER, w.conv, 'addConnector', x, 100000, False), 'the weights exceed 100%'
''')
seed('C13-network-min', 'C13', 'a network conversion paid out in ICX',
     'the minimum is not asked from the last hop when the result is paid in ICX',
     [(NET, 'data["minReturn"] = min_return if i == len(path)-2 else 1', 'data["minReturn"] = min_return if i == len(path)-2 and not self._icx_tokens[to_token_address] else 1')],
     '''
w = Dex()
w.call(OWNER, w.irc, 'transfer', ALICE, 1000, b'None')
q = w.ask(w.network, 'getExpectedReturnByPath', w.path(w.irc, w.flex, w.icxt), 500)
try:
    w.trade(ALICE, 500, w.irc, w.flex, w.icxt, min_return=q + 1)
    ok = False
except Reverted:
    ok = True
assert ok, 'the trader got less than the minimum'
''')
seed('C02-pending-admin', 'C02', 'the nominee nominates somebody else before accepting',
     'a nominee can pass the nomination on',
     [(OWN, '''    @external
    def transferOwnerShip(self, _newOwner: Address):''', '''    @external
    def transferOwnerShip(self, _newOwner: Address):
        """"""
        if self.msg.sender == self._new_owner.get() and _newOwner.is_contract:
            self._new_owner.set(_newOwner)
            return
        self._nominate(_newOwner)

    def _nominate(self, _newOwner: Address):''')],
     '''
w = Dex(activate=False)
w.call(OWNER, w.flex, 'transferOwnerShip', ALICE)
assert w.fails(ALICE, w.flex, 'transferOwnerShip', w.conv), 'a nominee nominated'
''')
