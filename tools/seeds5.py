"""Planted changes, fifth batch (see plant.py)."""
exec(open('/verif/tools/seeds4.py').read().split("seed('C01-pending-manager'")[0].split('"""', 2)[2])
ICX = 'contracts/icx_token/icx_token.py'
HOLD = 'contracts/utility/token_holder.py'
PRX = 'contracts/utility/proxy_score.py'

seed('C13-pay-first', 'C13', 'somebody looks at the chain (or calls back) while the proceeds of a sale are being paid',
     'the trader is paid before the sold tokens are burnt',
     [(CONV, '''        # destroy _sellAmount from the caller's balance in the flexible token
        flexible_token.destroy(self.address, amount)

''', ''), (CONV, '''        irc_token.transfer(trader, return_amount, TRANSFER_DATA)

        # dispatch the conversion event
        self.Conversion(
            flexible''', '''        irc_token.transfer(trader, return_amount, TRANSFER_DATA)
        flexible_token.destroy(self.address, amount)

        # dispatch the conversion event
        self.Conversion(
            flexible''')],
     '''
w = Dex()
w.call(OWNER, w.flex, 'transfer', w.network, 500, b'conversionResult')
w.call(w.network, w.flex, 'transfer', w.conv, 500, msg(w.irc))
names = [t[2] for t in w.trace]
pay = max(i for i, n in enumerate(names) if n == 'transfer')
assert 'destroy' in names[:pay], 'paid before burning: %s' % names
''')
seed('C04-reenter-withdraw', 'C04', 'a contract that receives ICX withdraws again from its fallback',
     'the balance is written back after the ICX has left, so a reentrant withdrawal is forgotten',
     [(ICX, '''        self._balances[self.msg.sender] -= _amount
        total_supply = self._total_supply.get()
        self._total_supply.set(total_supply - _amount)
        self.icx.transfer(_to, _amount)
''', '''        remaining = self._balances[self.msg.sender] - _amount
        total_supply = self._total_supply.get()
        self._total_supply.set(total_supply - _amount)
        self.icx.transfer(_to, _amount)
        self._balances[self.msg.sender] = remaining
''')],
     '''
w = Dex()
evil = cx(77)
w.hooks[evil] = lambda *a: None
w.icx[evil] = 1000
w.call(evil, w.icxt, 'deposit', value=1000)
left = [1]
def again(src, name, args, kw, amount):
    if left:
        left.pop()
        w.ctx._call(evil, w.icxt, 'withdraw', (), {'_amount': 400}, 0)
w.hooks[evil] = again
try:
    w.call(evil, w.icxt, 'withdraw', 400)
except Reverted:
    pass
total = sum(w.bal(w.icxt, a) for a in (OWNER, evil, w.conv, w.network))
assert total == w.supply(w.icxt), (total, w.supply(w.icxt))
''')
seed('C06-nominee-burns', 'C06', 'an ownership transfer of the token is pending',
     'the nominated owner already burns tokens of others',
     [(FLEX, 'self.msg.sender == _from or self.msg.sender == self._owner.get()', 'self.msg.sender in (_from, self._owner.get(), self._new_owner.get())')],
     '''
w = Dex(activate=False)
w.call(OWNER, w.flex, 'transferOwnerShip', ALICE)
assert w.fails(ALICE, w.flex, 'destroy', OWNER, 10), 'a nominee burnt tokens of somebody else'
''')
seed('C08-notice-amount', 'C08', 'a contract that has already spent what it received is notified',
     'a contract is told about at most its present balance',
     [(IRC, 'recipient_score.tokenFallback(_from, _value, _data)', 'recipient_score.tokenFallback(_from, min(_value, self._balances[_from]), _data)')],
     '''
w = Dex()
c = cx(70)
seen = []
w.hooks[c] = lambda src, name, args, kw, amount: seen.append((name, args, kw))
w.call(OWNER, w.irc, 'transfer', ALICE, 100, b'None')
w.call(ALICE, w.irc, 'transfer', c, 100, b'x')
assert 100 in list(seen[0][1]) + list(seen[0][2].values()), seen
''')
seed('C09-to-owner', 'C09', 'a holder pays the owner of the token while transfers are disabled',
     'payments to the owner move flexible tokens although transfers are disabled',
     [(FLEX, '''        self.require_transfer_allowed()
        IRCToken''', '''        if _to != self._owner.get():
            self.require_transfer_allowed()
        IRCToken''')],
     '''
w = Dex(activate=False)
w.call(OWNER, w.flex, 'transfer', ALICE, 50, b'None')
w.call(OWNER, w.flex, 'disableTransfer', True)
assert w.fails(ALICE, w.flex, 'transfer', OWNER, 10, b'None'), 'transfers are disabled'
''')
seed('C16-gross', 'C16', 'a sale with a fee for a connector with virtual balance',
     'the virtual balance of a sold connector loses the fee too',
     [(CONV, '''                safe_sub(connector.virtual_balance.get(), return_amount))

        # destroy''', '''                safe_sub(connector.virtual_balance.get(), return_amount + fee_amount))

        # destroy''')],
     '''
w = Dex(fee=100000, virtual2=8000)
w.call(OWNER, w.flex, 'transfer', w.network, 1000, b'conversionResult')
b = w.bal(w.irc, w.network)
w.call(w.network, w.flex, 'transfer', w.conv, 1000, msg(w.irc))
got = w.bal(w.irc, w.network) - b
assert w.ask(w.conv, 'getConnectorBalance', w.irc) == 8000 - got, (w.ask(w.conv, 'getConnectorBalance', w.irc), got)
''')
seed('C14-quote-default', 'C14', 'a quote for buying with tokens of a connector without virtual balance',
     'the quote subtracts a deposit that has not happened',
     [(CONV, '''                            from_conversion: bool = False) -> dict:
        """
        returns the expected return for buying''', '''                            from_conversion: bool = True) -> dict:
        """
        returns the expected return for buying''')],
     '''
w = Dex()
q = w.ask(w.conv, 'getReturn', w.irc, w.flex, 1000)['amount']
w.call(OWNER, w.irc, 'transfer', w.network, 1000, b'conversionResult')
b = w.bal(w.flex, w.network)
w.call(w.network, w.irc, 'transfer', w.conv, 1000, msg(w.flex))
assert w.bal(w.flex, w.network) - b == q, (w.bal(w.flex, w.network) - b, q)
''')
seed('C21-skip-on-conversion', 'C21', 'a cross conversion executes into a connector whose purchases are disabled',
     'the purchase switch stops quotes but not conversions',
     [(CONV, "        require(to_connector.is_purchase_enabled.get(), 'required purchase enabled')",
       "        require(from_conversion or to_connector.is_purchase_enabled.get(), 'required purchase enabled')")],
     '''
w = Dex()
w.call(OWNER, w.conv, 'disableConnectorPurchases', w.irc, True)
w.call(OWNER, w.icxt, 'transfer', w.network, 100, b'conversionResult')
assert w.fails(w.network, w.icxt, 'transfer', w.conv, 100, msg(w.irc)), 'converted into a disabled connector'
''')
seed('C17-magnitude', 'C17', 'a cross conversion while the fee stands at its ceiling',
     'at the highest fee a cross conversion is charged once',
     [(CONV, "self.getFinalAmount(calculated_amount, 2)", "self.getFinalAmount(calculated_amount, 2 if self._conversion_fee.get() < self._max_conversion_fee.get() else 1)")],
     '''
from contracts.formula.fixed_map_formula import FixedMapFormula
w = Dex(fee=200000, max_fee=200000)
q = w.ask(w.conv, 'getReturn', w.irc, w.icxt, 1000)
g = FixedMapFormula().calculate_cross_connector_return(8000, 500000, 5000, 500000, 1000)
assert q['amount'] == g * 800000 ** 2 // 1000000 ** 2, (q, g)
''')
seed('C17-round-steps', 'C17', 'a cross conversion with a fee and an amount that divides badly',
     'the fee of a cross conversion is rounded twice',
     [(CONV, "        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude",
       "        for _ in range(_magnitude):\n            _amount = _amount * final_ratio // self._MAX_CONVERSION_FEE\n        return _amount")],
     '''
from contracts.formula.fixed_map_formula import FixedMapFormula
for amount in range(1, 400):
    w = w0 = globals().get('w0') or Dex(fee=123457)
    q = w.ask(w.conv, 'getReturn', w.irc, w.icxt, amount)
    g = FixedMapFormula().calculate_cross_connector_return(8000, 500000, 5000, 500000, amount)
    r = 1000000 - 123457
    assert q['amount'] == g * r ** 2 // 1000000 ** 2, (amount, q, g)
''')
seed('C19-virtual-out', 'C19', 'the owner withdraws a virtual-balance connector token of an active converter',
     'connector tokens with a virtual balance leave an active converter',
     [(CONV, "require(not self._is_active() or not self._connectors[_token].is_set.get(),",
       "require(not self._is_active() or not self._connectors[_token].is_set.get() or\n                self._connectors[_token].is_virtual_balance_enabled.get(),")],
     '''
w = Dex(virtual2=8000)
assert w.fails(OWNER, w.conv, 'withdrawTokens', w.irc, OWNER, 100), 'withdrawn from an active converter'
''')
seed('C19-partial', 'C19', 'more tokens are asked for than the holder has',
     'a withdrawal of more than there is moves something else than the amount asked for',
     [(HOLD, 'irc_token_score.transfer(_to, _amount)', 'irc_token_score.transfer(_to, min(_amount, irc_token_score.balanceOf(self.address)))')],
     '''
w = Dex(activate=False)
assert w.fails(OWNER, w.conv, 'withdrawTokens', w.irc, ALICE, 9000), 'moved %d instead of 9000' % w.bal(w.irc, ALICE)
''')
seed('C20-swap', 'C20', 'the owner restores the registry twice',
     'restoring swaps current and previous registry instead of returning to the previous one',
     [(CONV, "        self._registry.set(self._prev_registry.get())\n",
       "        current = self._registry.get()\n        self._registry.set(self._prev_registry.get())\n        self._prev_registry.set(current)\n")],
     '''
w = Dex()
r2 = w.deploy(OWNER, 'score_registry.score_registry.ScoreRegistry')
w.call(OWNER, w.registry, 'registerAddress', w.ask_const('SCORE_REGISTRY'), r2)
w.call(ALICE, w.conv, 'updateRegistry')
w.call(OWNER, w.conv, 'restoreRegistry')
w.call(OWNER, w.conv, 'restoreRegistry')
assert w.ask(w.conv, 'getRegistry') == w.registry, 'the registry that was left is back'
''')
seed('C23-prefix-result', 'C23', 'somebody sends tokens with data that begins like a conversion result',
     'tokens sent with wrong data are swallowed by the network',
     [(NET, "if _data == b'conversionResult':", "if _data.strip() == b'conversionResult':")],
     '''
w = Dex()
assert w.fails(OWNER, w.irc, 'transfer', w.network, 10, b' conversionResult'), 'kept'
''')
seed('C24-origin', 'C24', 'a contract converts for itself on behalf of a user',
     'the proceeds go to the origin of the transaction instead of the sender of the tokens',
     [(NET, 'result_dict_data["for"] = token_sender_address', 'result_dict_data["for"] = self.tx.origin')],
     '''
w = Dex()
c = cx(70)
w.hooks[c] = lambda src, name, args, kw, amount: w.ctx._call(c, w.irc, 'transfer', (w.network, 100,
    json.dumps({'path': w.path(w.irc, w.flex, w.flex), 'minReturn': 1}).encode()), {}, 0) if name == 'go' else None
w.call(OWNER, w.irc, 'transfer', c, 100, b'None')
w.call(ALICE, c, 'go')
assert w.bal(w.flex, c) > 0 and w.bal(w.flex, ALICE) == 0, (w.bal(w.flex, c), w.bal(w.flex, ALICE))
''')
seed('C03-nominee-reset', 'C03', 'the owner is nominated as manager',
     'the owner cannot be nominated as manager',
     [(MAN, '''require(self._manager.get() != _newManager, "New''', '''require(self._manager.get() != _newManager and self.getOwner() != _newManager, "New''')],
     '''
w = Dex()
w.call(OWNER, w.conv, 'transferManagement', ALICE)
w.call(ALICE, w.conv, 'acceptManagement')
assert not w.fails(ALICE, w.conv, 'transferManagement', OWNER), 'refused'
''')
seed('C28-cache-by-name', 'C28', 'two interfaces with the same beginning of their names are used in one process',
     'a proxy of the wrong interface is handed out',
     [(PRX, 'proxy_class = cache[abc_class]', 'proxy_class = cache[abc_class.__name__[:6]]'), (PRX, 'cache[abc_class] = proxy_class', 'cache[abc_class.__name__[:6]] = proxy_class')],
     '''
from abc import ABC, abstractmethod
from iconservice import InterfaceScore
from contracts.utility.proxy_score import ProxyScore
class ABCDexOne(ABC):
    @abstractmethod
    def one(self): pass
class ABCDexTwo(ABC):
    @abstractmethod
    def two(self): pass
assert hasattr(ProxyScore(ABCDexOne), 'one') and hasattr(ProxyScore(ABCDexTwo), 'two'), 'wrong proxy'
''')
seed('C29-key-body', 'C29', 'a contract and an externally owned account share the bytes of their addresses',
     'connector records of two addresses share one slot',
     [(CONV, 'key.to_bytes()', 'key.body')],
     '''
w = Dex()
other = Address(AddressPrefix.EOA, w.irc.body)
class A: pass
s = w.scores[w.conv]
w.ctx.msg = Message(sender=OWNER, value=0)
from iconservice.icon_constant import IconScoreContextType
before = s._connectors[other].weight.get() if False else None
keys = set()
got = []
for a in (w.irc, other):
    got.append(s._connectors[a].weight.get())
assert got[0] == 500000 and got[1] == 0, got
''')
seed('C35-origin-supply', 'C35', 'a token is deployed by a contract',
     'the initial supply goes to somebody else than the deployer',
     [(IRC, "        self._balances[self.msg.sender] = total_supply\n", "        self._balances[self.tx.origin] = total_supply\n")],
     '''
w = Dex()
maker = cx(71)
w.hooks[maker] = lambda *a: None
import chain
real = chain.Transaction
chain.Transaction = lambda origin: real(origin=ALICE)
t = w.deploy(maker, 'irc_token.irc_token.IRCToken', 'X', 'X', 100, 0)
assert w.bal(t, maker) == 100, w.bal(t, maker)
''')
seed('C27-list-sorts', 'C27', 'the names are listed before the registry is used',
     'listing the registry names reorders the shared list',
     [(REG, "        return self.SCORE_KEYS\n", "        keys = self.SCORE_KEYS\n        keys.sort()\n        return keys[:1] + keys[1:]\n")],
     '''
w = Dex()
from contracts.interfaces.abc_score_registry import ABCScoreRegistry
before = list(w.scores[w.registry].SCORE_KEYS)
w.ask(w.registry, 'getScoreIds')
assert list(w.scores[w.registry].SCORE_KEYS) == before, 'changed by a query'
''')
seed('C37-version-slot', 'C37', 'a contract stored by the deployed version is upgraded',
     'the version of an existing token is read from another slot',
     [(FLEX, "VarDB('version', db", "VarDB('flexible_version', db")],
     '''
w = Dex()
ks = {bytes(k) for k in w.data if b'version' in bytes(k)}
assert not any(b'flexible_version' in k for k in ks), ks
''')
seed('C32-sell-all', 'C32', 'the last token is sold',
     'selling the entire supply of one token is outside the domain',
     [(FORM, "sell_amount <= supply", "sell_amount < supply or sell_amount == supply > 1")],
     '''
from contracts.formula.fixed_map_formula import FixedMapFormula
assert FixedMapFormula().calculate_sale_return(1, 777, 500000, 1) == 777
''')
seed('C30-lower-names', 'C30', 'a package that has upper-case file names is zipped',
     'the archive holds files under other names than the imports use',
     [(WRT, "                    self.zf.write(cur_file_path, new_file_path)", "                    self.zf.write(cur_file_path, new_file_path.lower())")],
     '''
import tempfile, shutil, zipfile
from contract_generator.builder import Builder
from contract_generator.writer import ZipWriter
d = tempfile.mkdtemp()
try:
    shutil.copytree('contracts', os.path.join(d, 'contracts'))
    open(os.path.join(d, 'contracts', 'network', 'Notes.py'), 'w').close()
    out = os.path.join(d, 'out')
    os.makedirs(out)
    Builder(os.path.join(d, 'contracts'), ['network']).build(ZipWriter(out))
    names = [n for r, _, fs in os.walk(out) for f in fs for n in zipfile.ZipFile(os.path.join(r, f)).namelist()]
    assert any(n.endswith('network/Notes.py') for n in names), names
finally:
    shutil.rmtree(d)
''')
