CONV = 'contracts/converter/converter.py'
NET = 'contracts/network/network.py'
FLEX = 'contracts/flexible_token/flexible_token.py'
IRC = 'contracts/irc_token/irc_token.py'
ICXT = 'contracts/icx_token/icx_token.py'
REG = 'contracts/score_registry/score_registry.py'
OWN = 'contracts/utility/owned.py'
MAN = 'contracts/utility/managed.py'
CTL = 'contracts/utility/flexible_token_controller.py'
HOLD = 'contracts/utility/token_holder.py'
UTIL = 'contracts/utility/utils.py'
PRE = 'from chain import *\n'
SEEDS = {}


def seed(sid, prop, needs, breaks, edits, demo):
    SEEDS[sid] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo)


seed('C01-relay-owner', 'C01', 'the owner sends a transaction to some other contract, which calls the administrative operation',
     'a contract the owner merely calls can administer the owner\'s contracts',
     [(OWN, 'if self.msg.sender != self._owner.get():\n            revert("Invalid owner")',
       'if self.msg.sender != self._owner.get() and \\\n                (self.tx is None or self.tx.origin != self._owner.get()):\n            revert("Invalid owner")')],
     '''
d = Dex()
evil = cx(500)
def relay(sender, name, args, kw, amount):
    return d.ctx._call(evil, d.network, 'transferOwnerShip', (evil,), {}, 0)
d.hooks[evil] = relay
assert d.fails(OWNER, evil, 'harmless'), 'a relay contract got administrative rights'
''')

seed('C01-reenable', 'C01', 'purchases with a connector were disabled and somebody else asks to re-enable them',
     'anybody can lift the purchase block on a compromised connector',
     [(CONV, '''        self.require_owner_only()
        self._require_valid_connector(_connectorToken)

        self._connectors[_connectorToken].is_purchase_enabled''',
       '''        if _disable:
            self.require_owner_only()
        self._require_valid_connector(_connectorToken)

        self._connectors[_connectorToken].is_purchase_enabled''')],
     '''
d = Dex()
d.call(OWNER, d.conv, 'disableConnectorPurchases', d.irc, True)
assert d.fails(ALICE, d.conv, 'disableConnectorPurchases', d.irc, False), 'a stranger re-enabled purchases'
''')

seed('C02-upgrade-clears', 'C02', 'a contract is upgraded while an ownership hand-over is pending',
     'an upgrade silently drops the nomination made by the owner',
     [(OWN, '''    def on_update(self) -> None:
        IconScoreBase.on_update(self)''', '''    def on_update(self) -> None:
        IconScoreBase.on_update(self)
        self._new_owner.set(ZERO_SCORE_ADDRESS)''')],
     '''
d = Dex()
d.call(OWNER, d.flex if False else d.network, 'transferOwnerShip', ALICE)
d.upgrade(OWNER, d.network)
assert d.ask(d.network, 'getNewOwner') == ALICE
d.call(ALICE, d.network, 'acceptOwnerShip')
assert d.ask(d.network, 'getOwner') == ALICE
''')

seed('C02-sticky-nominee', 'C02', 'the owner corrects a nomination by nominating somebody else before it is accepted',
     'the second nomination is ignored while one is pending; the wrong account can still take over',
     [(OWN, '        self._new_owner.set(_newOwner)', '''        if self._new_owner.get() in (None, ZERO_SCORE_ADDRESS, _newOwner) or not _newOwner.is_contract:
            self._new_owner.set(_newOwner)''')],
     '''
w = Dex()
w.call(OWNER, w.network, 'transferOwnerShip', ALICE)
w.call(OWNER, w.network, 'transferOwnerShip', w.conv)
assert w.ask(w.network, 'getNewOwner') == w.conv, 'the replaced nominee is still nominated'
''')

seed('C03-owner-accepts', 'C03', 'the owner calls acceptManagement while nobody (or somebody else) is nominated',
     'management can be accepted by an account that was not nominated; without a nomination it is lost to the zero address',
     [(MAN, 'if self.msg.sender != self._new_manager.get():', 'if self.msg.sender not in (self._new_manager.get(), self._owner.get()):')],
     '''
d = Dex()
d.call(OWNER, d.conv, 'transferManagement', ALICE)
assert d.fails(OWNER, d.conv, 'acceptManagement'), 'accepted by an account that is not the nominee'
d.call(ALICE, d.conv, 'acceptManagement')
assert d.fails(OWNER, d.conv, 'acceptManagement')
assert d.ask(d.conv, 'getManager') == ALICE
''')

seed('C04-self-transfer', 'C04', 'a holder transfers tokens to itself',
     'a self transfer creates tokens that the supply does not count',
     [(IRC, '''        self._balances[_from] = self._balances[_from] - _value
        self._balances[_to] = self._balances[_to] + _value''',
       '''        from_balance = self._balances[_from]
        to_balance = self._balances[_to]
        self._balances[_from] = from_balance - _value
        self._balances[_to] = to_balance + _value''')],
     '''
d = Dex()
b = d.bal(d.irc, OWNER)
d.call(OWNER, d.irc, 'transfer', OWNER, 100)
assert d.bal(d.irc, OWNER) == b, 'a self transfer changed the balance'
''')

seed('C04-reentrant-supply', 'C04', 'the contract that is paid the ICX withdraws again from inside its fallback',
     'nested withdrawals are subtracted only once from the supply',
     [(ICXT, '''        self._total_supply.set(total_supply - _amount)
        self.icx.transfer(_to, _amount)
''', '''        self.icx.transfer(_to, _amount)
        self._total_supply.set(total_supply - _amount)
''')],
     '''
w = Dex()
c = cx(500)
w.icx[c] = 1000
n = [0]
def fall(sender, name, args, kw, amount):
    if name is None and n[0] == 0:
        n[0] = 1
        w.ctx._call(c, w.icxt, 'withdraw', (300,), {}, 0)
w.hooks[c] = fall
before = w.supply(w.icxt)
w.call(c, w.icxt, 'deposit', value=1000)
w.call(c, w.icxt, 'withdraw', 200)
assert n[0] == 1
assert w.supply(w.icxt) == before + 500 and w.bal(w.icxt, c) == 500, (w.supply(w.icxt), before)
assert w.supply(w.icxt) == w.icx[w.icxt]
''')

seed('C05-owner-overdraft', 'C05', 'the token owner destroys more than the holder has',
     'a balance becomes negative',
     [(FLEX, 'require(self._balances[_from] >= _amount, "Out of balance")',
       'require(self._balances[_from] >= _amount or self._total_supply.get() >= _amount, "Out of balance")')],
     '''
d = Dex(activate=False)
d.call(OWNER, d.flex, 'issue', ALICE, 10)
assert d.fails(OWNER, d.flex, 'destroy', ALICE, 11)
assert d.bal(d.flex, ALICE) == 10
''')

seed('C05-refuse-empty', 'C05', 'a transfer of zero tokens from an account that holds none',
     'an admissible request is refused',
     [(IRC, 'if self._balances[_from] < _value:\n            revert("Out of balance")',
       'if self._balances[_from] < max(_value, 1):\n            revert("Out of balance")')],
     '''
d = Dex()
d.call(BOB, d.irc, 'transfer', ALICE, 0)
assert d.event('Transfer') == [[BOB, ALICE, 0, b'None']]
''')

seed('C06-deposit-origin', 'C06', 'a contract (not a user) deposits ICX',
     'the tokens are credited to the account that signed the transaction instead of the depositor',
     [(ICXT, '''        self._balances[self.msg.sender] += self.msg.value
''', '''        depositor = self.tx.origin if self.msg.sender.is_contract and self.tx else self.msg.sender
        self._balances[depositor] += self.msg.value
''')],
     '''
w = Dex()
c = cx(500)
w.icx[c] = 1000
def go(sender, name, args, kw, amount):
    w.ctx._call(c, w.icxt, 'deposit', (), {}, 700)
w.hooks[c] = go
w.call(ALICE, c, 'go')
assert w.bal(w.icxt, c) == 700 and w.bal(w.icxt, ALICE) == 0
''')

seed('C07-payable-withdraw', 'C07', 'ICX is attached to a withdraw call',
     'the ICX token accepts ICX for which it creates no tokens',
     [(ICXT, '''    @external
    def withdraw(self, _amount: int):''', '''    @payable
    @external
    def withdraw(self, _amount: int):''')],
     '''
w = Dex()
w.call(ALICE, w.icxt, 'deposit', value=100)
try:
    w.call(ALICE, w.icxt, 'withdraw', 40, value=7)
except Reverted:
    pass
assert w.supply(w.icxt) == w.icx[w.icxt], 'ICX held and supply differ'
''')

seed('C07-send', 'C07', 'the recipient of a withdrawal refuses the payment',
     'the tokens are burnt although the ICX could not be paid',
     [(ICXT, '        self.icx.transfer(_to, _amount)\n', '''        if _to.is_contract:
            self.icx.send(_to, _amount)
        else:
            self.icx.transfer(_to, _amount)
''')],
     '''
w = Dex()
c = cx(500)
def refuse(sender, name, args, kw, amount):
    raise Reverted('no thanks')
w.hooks[c] = refuse
w.call(ALICE, w.icxt, 'deposit', value=100)
assert w.fails(ALICE, w.icxt, 'withdrawTo', 40, c), 'burnt without payment'
assert w.bal(w.icxt, ALICE) == 100
''')

seed('C08-empty-data', 'C08', 'a transfer with empty but present data',
     'the notification carries the placeholder instead of the sender\'s (empty) data',
     [(IRC, '        if _data is None:\n', '        if not _data:\n')],
     '''
w = Dex()
c, got = cx(500), []
w.hooks[c] = lambda s, n, a, k, v: got.append((n, a, k))
w.call(OWNER, w.irc, 'transfer', c, 5, b'')
assert got == [('tokenFallback', (OWNER, 5, b''), {})], got
''')

seed('C08-no-veto', 'C08', 'the receiving contract reverts in tokenFallback',
     'the recipient cannot refuse tokens any more',
     [(IRC, '            recipient_score.tokenFallback(_from, _value, _data)\n', '''            try:
                recipient_score.tokenFallback(_from, _value, _data)
            except BaseException as e:
                Logger.debug(f'tokenFallback: {e}', TAG)
''')],
     '''
w = Dex()
c = cx(500)
def veto(s, n, a, k, v):
    raise Reverted('no')
w.hooks[c] = veto
assert w.fails(OWNER, w.irc, 'transfer', c, 5, b'x')
''')

seed('C08-early-notice', 'C08', 'the recipient looks at its balance when it is notified',
     'the recipient is notified before it is credited',
     [(IRC, '''        self._balances[_from] = self._balances[_from] - _value
        self._balances[_to] = self._balances[_to] + _value

        if _to.is_contract:''', '''        self._balances[_from] = self._balances[_from] - _value

        if _to.is_contract:'''),
      (IRC, '''            recipient_score.tokenFallback(_from, _value, _data)

''', '''            recipient_score.tokenFallback(_from, _value, _data)

        self._balances[_to] = self._balances[_to] + _value

''')],
     '''
w = Dex()
c, got = cx(500), []
def note(s, n, a, k, v):
    got.append(w.ctx._call(c, w.irc, 'balanceOf', (c,), {}, 0))
w.hooks[c] = note
w.call(OWNER, w.irc, 'transfer', c, 5, b'x')
assert got == [5], got
''')

seed('C09-owner-exempt', 'C09', 'transfers are disabled and the owner of the token (a converter) transfers',
     'the switch does not stop transfers by the owner',
     [(FLEX, '''        self.require_transfer_allowed()
        IRCToken''', '''        if self.msg.sender != self._owner.get():
            self.require_transfer_allowed()
        IRCToken''')],
     '''
w = Dex(activate=False)
w.call(OWNER, w.flex, 'disableTransfer', True)
assert w.fails(OWNER, w.flex, 'transfer', ALICE, 5)
''')

seed('C09-burn-blocked', 'C09', 'transfers are disabled and a holder burns its own tokens',
     'the switch also stops burning',
     [(FLEX, '''        require(self.msg.sender == _from or self.msg.sender == self._owner.get(),
                "You are not token holder or flexible token owner")
''', '''        if self.msg.sender != self._owner.get():
            require(self.msg.sender == _from, "You are not token holder or flexible token owner")
            self.require_transfer_allowed()
''')],
     '''
w = Dex(activate=False)
w.call(OWNER, w.flex, 'issue', ALICE, 10)
w.call(OWNER, w.flex, 'disableTransfer', True)
w.call(ALICE, w.flex, 'destroy', ALICE, 4)
assert w.bal(w.flex, ALICE) == 6
''')

seed('C10-decimals', 'C10', 'a token installed with 0 decimals',
     'decimals() does not report the stored value',
     [(IRC, 'return self._decimals.get()', 'return self._decimals.get() or 18')],
     '''
w = Dex()
assert w.ask(w.irc, 'decimals') == 0
assert w.ask(w.icxt, 'decimals') == 18
''')

seed('C10-burn-log', 'C10', 'the owner (a converter) burns tokens of another account',
     'the Transfer event of the burn names the wrong debited party',
     [(FLEX, 'self.Transfer(_from, self.address, _amount, b\'None\')',
       'self.Transfer(self.msg.sender, self.address, _amount, b\'None\')')],
     '''
w = Dex(activate=False)
w.call(OWNER, w.flex, 'issue', ALICE, 10)
w.call(OWNER, w.flex, 'destroy', ALICE, 4)
assert w.event('Transfer') == [[ALICE, w.flex, 4, b'None']], 'wrong party'
''')

seed('C11-stale-price', 'C11', 'somebody reads the price record of a sale',
     'the price record shows the supply before the conversion',
     [(CONV, '''        # dispatch price data update for the flexible token/connector
        self.PriceDataUpdate(connector_token,
                             flexible_token.totalSupply(),
                             self.getConnectorBalance(connector_token),
                             connector.weight.get())

        return return_amount

    def _convert_cross_connector''', '''        # dispatch price data update for the flexible token/connector
        self.PriceDataUpdate(connector_token,
                             token_supply,
                             self.getConnectorBalance(connector_token),
                             connector.weight.get())

        return return_amount

    def _convert_cross_connector''')],
     '''
w = Dex()
w.call(OWNER, w.flex, 'transfer', ALICE, 100)
w.trade(ALICE, 50, w.flex, w.flex, w.irc)
(tok, supply, bal, weight), = w.event('PriceDataUpdate')
assert supply == w.supply(w.flex) and bal == w.bal(w.irc, w.conv), (supply, w.supply(w.flex))
''')

seed('C11-fee-order', 'C11', 'the fee is changed twice',
     'the previous fee in the log is the new one',
     [(CONV, '''        self.ConversionFeeUpdate(self._conversion_fee.get(), _conversionFee)
        self._conversion_fee.set(_conversionFee)''', '''        prev_fee, self._last_fee = getattr(self, '_last_fee', 0), _conversionFee
        self.ConversionFeeUpdate(prev_fee, _conversionFee)
        self._conversion_fee.set(_conversionFee)''')],
     '''
w = Dex()
w.call(OWNER, w.conv, 'setConversionFee', 5)
w.restart()
w.call(OWNER, w.conv, 'setConversionFee', 9)
assert w.event('ConversionFeeUpdate') == [[5, 9]], w.event('ConversionFeeUpdate')
''')

seed('C12-direct-trader', 'C12', 'a user sends tokens straight to the converter instead of through the network',
     'conversions run without the network',
     [(CONV, 'require(_from == network, ', 'require(_from == network or (self.tx is not None and _from == self.tx.origin),\n                    ')],
     '''
w = Dex()
w.call(OWNER, w.irc, 'transfer', ALICE, 500)
assert w.fails(ALICE, w.irc, 'transfer', w.conv, 100, msg(w.flex)), 'converted without the network'
''')

seed('C12-switch-cross', 'C21', 'conversions are disabled and a cross-connector conversion is requested',
     'the emergency switch does not stop cross-connector conversions',
     [(CONV, '''        self._require_conversions_allowed()
        require_positive_value(min_return)''', '''        require_positive_value(min_return)'''),
      (CONV, '''        if to_token == flexible_token:
            return self._buy(trader''', '''        if flexible_token in (to_token, from_token):
            self._require_conversions_allowed()
        if to_token == flexible_token:
            return self._buy(trader''')],
     '''
w = Dex()
w.call(OWNER, w.irc, 'transfer', ALICE, 500)
w.call(OWNER, w.conv, 'disableConversions', True)
assert w.fails_trade if hasattr(w, 'fails_trade') else True
for path in ((w.irc, w.flex, w.flex), (w.irc, w.flex, w.icxt)):
    try:
        w.trade(ALICE, 100, *path)
    except Reverted:
        continue
    raise AssertionError('converted while disabled')
''')

seed('C13-gross-minimum', 'C13', 'a cross-connector conversion with a fee and a minimum between net and gross return',
     'the trader can get less than the requested minimum',
     [(CONV, '''        returns = self.get_cross_connector_return(from_token, to_token, amount, True)
        return_amount = returns['amount']
        fee_amount = returns['fee']
        # ensure the trade gives something in return and meets the minimum requested amount
        require(return_amount >= min_return, 'returning''', '''        returns = self.get_cross_connector_return(from_token, to_token, amount, True)
        return_amount = returns['amount']
        fee_amount = returns['fee']
        # ensure the trade gives something in return and meets the minimum requested amount
        require(return_amount + fee_amount >= min_return, 'returning''')],
     '''
w = Dex(fee=100000)
w.call(OWNER, w.irc, 'transfer', ALICE, 500)
q = w.ask(w.conv, 'getReturn', w.irc, w.icxt, 400)
assert q['fee'] > 0
try:
    w.trade(ALICE, 400, w.irc, w.flex, w.icxt, min_return=q['amount'] + 1)
    raise AssertionError('paid less than the minimum')
except Reverted:
    pass
''')

seed('C13-burn-net', 'C13', 'a sale while the converter charges a fee',
     'part of the sold tokens is not burnt',
     [(CONV, 'flexible_token.destroy(self.address, amount)', 'flexible_token.destroy(self.address, self.getFinalAmount(amount, 1))')],
     '''
w = Dex(fee=100000)
w.call(OWNER, w.flex, 'transfer', ALICE, 500)
s = w.supply(w.flex)
w.trade(ALICE, 400, w.flex, w.flex, w.irc)
assert w.supply(w.flex) == s - 400 and w.bal(w.flex, w.conv) == 0
''')

seed('C14-quote-sale', 'C14', 'purchases with a connector are disabled and a sale into it is quoted',
     'an executable sale cannot be quoted through the public query',
     [(CONV, '''        elif _fromToken == flexible_token:
            return self.get_sale_return(_toToken, _amount)''', '''        elif _fromToken == flexible_token:
            require(self._connectors[_toToken].is_purchase_enabled.get(), 'required purchase enabled')
            return self.get_sale_return(_toToken, _amount)''')],
     '''
w = Dex()
w.call(OWNER, w.flex, 'transfer', ALICE, 500)
w.call(OWNER, w.conv, 'disableConnectorPurchases', w.irc, True)
q = w.ask(w.conv, 'getReturn', w.flex, w.irc, 100)
w.trade(ALICE, 100, w.flex, w.flex, w.irc)
assert w.bal(w.irc, ALICE) == q['amount']
''')

seed('C14-quote-supply', 'C14', 'the converter itself holds some of the flexible token when a sale is quoted',
     'the quote is made for a smaller supply than the execution',
     [(CONV, '''        token_supply = flexible_token.totalSupply()
        connector_balance = self.getConnectorBalance(connector_token)

        calculated_amount = formula.calculate_sale_return(''', '''        token_supply = flexible_token.totalSupply()
        if self.msg.sender == self._token.get():
            # the tokens to sell have already been received
            token_supply -= flexible_token.balanceOf(self.address) - amount
        connector_balance = self.getConnectorBalance(connector_token)

        calculated_amount = formula.calculate_sale_return(''')],
     '''
w = Dex(activate=False)
w.hooks.clear()
w.call(OWNER, w.flex, 'issue', ALICE, 5000)
w.call(OWNER, w.flex, 'issue', w.conv, 5000)
w.activate()
q = w.ask(w.conv, 'getReturn', w.flex, w.irc, 1000)
w.trade(ALICE, 1000, w.flex, w.flex, w.irc)
assert w.bal(w.irc, ALICE) == q['amount'], (w.bal(w.irc, ALICE), q)
''')

seed('C15-drain-equal', 'C15', 'a sale whose return is exactly the whole connector balance although some supply remains',
     'a connector can be drained while tokens are still outstanding',
     [(CONV, '(return_amount == connector_balance and amount == token_supply)', '(return_amount == connector_balance and amount <= token_supply)')],
     '''
# a tiny virtual balance makes the rounded return equal to the balance
found = False
for virtual in (1, 2, 3):
    w = Dex(supply=10 ** 6, w2=1, virtual2=virtual)
    w.call(OWNER, w.flex, 'transfer', ALICE, 999999)
    for amount in (999999, 999990, 999000, 900000):
        try:
            w.trade(ALICE, amount, w.flex, w.flex, w.irc)
        except Reverted:
            continue
        assert w.ask(w.conv, 'getConnectorBalance', w.irc) > 0, 'drained'
        break
''')

seed('C15-no-redeem', 'C15', 'the entire supply is sold',
     'redeeming everything is impossible',
     [(CONV, '(return_amount == connector_balance and amount == token_supply)',
       '(return_amount == connector_balance and amount > token_supply)')],
     '''
w = Dex(supply=1000)
w.call(OWNER, w.flex, 'transfer', ALICE, 1000)
w.trade(ALICE, 1000, w.flex, w.flex, w.irc)
assert w.supply(w.flex) == 0 and w.bal(w.irc, ALICE) == 8000
''')

seed('C16-both-virtual', 'C16', 'a cross-connector conversion from an actual into a virtual balance',
     'the virtual balance of the target is not reduced when the source has none',
     [(CONV, '''        to_connector = self._connectors[to_token]
        if to_connector.is_virtual_balance_enabled.get():
            to_connector.virtual''', '''        to_connector = self._connectors[to_token]
        if to_connector.is_virtual_balance_enabled.get() and from_connector.is_virtual_balance_enabled.get():
            to_connector.virtual''')],
     '''
w = Dex(virtual2=4000)
w.call(OWNER, w.icxt, 'transfer', ALICE, 500)
w.trade(ALICE, 400, w.icxt, w.flex, w.irc)
got = w.bal(w.irc, ALICE)
assert got > 0 and w.ask(w.conv, 'getConnectorBalance', w.irc) == 4000 - got
''')

seed('C16-update-resets', 'C16', 'an owner re-opens purchases on a connector with virtual balance',
     'the switch also rewrites the virtual balance',
     [(CONV, '''        self._connectors[_connectorToken].is_purchase_enabled.set(not _disable)''',
       '''        connector = self._connectors[_connectorToken]
        connector.is_purchase_enabled.set(not _disable)
        if not _disable and connector.virtual_balance.get() > 0:
            # start over from the tokens really held
            connector.virtual_balance.set(
                self.create_interface_score(_connectorToken, IRCToken).balanceOf(self.address))''')],
     '''
w = Dex(virtual2=4000)
w.call(OWNER, w.conv, 'disableConnectorPurchases', w.irc, True)
w.call(OWNER, w.conv, 'disableConnectorPurchases', w.irc, False)
assert w.ask(w.conv, 'getConnectorBalance', w.irc) == 4000
''')

seed('C17-fee-ceiling', 'C17', 'a maximum fee below 100% and a fee above it',
     'the fee can exceed the ceiling fixed at installation',
     [(CONV, 'require(0 <= conversion_fee <= self._max_conversion_fee.get(), ', 'require(0 <= conversion_fee <= (self._max_conversion_fee.get() or self._MAX_CONVERSION_FEE), ')],
     '''
w = Dex(max_fee=0)
assert w.fails(OWNER, w.conv, 'setConversionFee', 10), 'fee above the ceiling'
''')

seed('C17-cross-once', 'C17', 'a cross-connector conversion with a fee',
     'the fee is charged once instead of twice',
     [(CONV, 'final_amount = self.getFinalAmount(calculated_amount, 2)', 'final_amount = self.getFinalAmount(calculated_amount, 2 if to_connector.weight.get() != from_connector.weight.get() else 1)')],
     '''
w = Dex(fee=100000)
a = w.ask(w.conv, 'getReturn', w.irc, w.icxt, 1000)
gross = a['amount'] + a['fee']
assert a['amount'] == gross * 900000 ** 2 // 1000000 ** 2, a
''')

seed('C18-weight-order', 'C18', 'a connector weight is updated to a different value',
     'the recorded total no longer equals the sum and can be exceeded',
     [(CONV, '''        connector = self._connectors[_connectorToken]

        new_total_weight = self._total_connector_weight.get() - connector.weight.get() + _weight
        require(new_total_weight <= self._MAX_WEIGHT, 'total connector weight is overflow')

        self._total_connector_weight.set(new_total_weight)
        connector.weight.set(_weight)
''', '''        connector = self._connectors[_connectorToken]
        connector.weight.set(_weight)

        new_total_weight = self._total_connector_weight.get() - connector.weight.get() + _weight
        require(new_total_weight <= self._MAX_WEIGHT, 'total connector weight is overflow')

        self._total_connector_weight.set(new_total_weight)
''')],
     '''
w = Dex()
w.call(OWNER, w.conv, 'updateConnector', w.irc, 400000, False, 0)
assert w.fails(OWNER, w.conv, 'updateConnector', w.icxt, 700000, False, 0), 'weights exceed 100%'
''')

seed('C18-shared-record', 'C18', 'two connectors of which one is looked up after the other in a fresh contract object',
     'all connectors share one record',
     [(CONV, "sub_db = self._db.get_sub_db(b'|'.join([CONNECTOR_DB_PREFIX, key.to_bytes()]))",
       "sub_db = self._db.get_sub_db(b'|'.join([CONNECTOR_DB_PREFIX, key.to_bytes()[:1]]))")],
     '''
w = Dex(w1=300000, w2=500000, activate=False)
assert w.ask(w.conv, 'getConnector', w.icxt)['weight'] == 300000
assert w.ask(w.conv, 'getConnector', w.irc)['weight'] == 500000
''')

seed('C19-drain-paused', 'C19', 'purchases with a connector are disabled while the converter is active',
     'the owner can withdraw connector tokens of an active converter',
     [(CONV, "require(not self._is_active() or not self._connectors[_token].is_set.get(),",
       "require(not self._is_active() or not self._connectors[_token].is_purchase_enabled.get(),")],
     '''
w = Dex()
w.call(OWNER, w.conv, 'disableConnectorPurchases', w.irc, True)
assert w.fails(OWNER, w.conv, 'withdrawTokens', w.irc, OWNER, 10), 'connector tokens withdrawn'
''')

seed('C19-deposit-active', 'C19', 'the owner sends a plain deposit to an active converter',
     'an active converter swallows plain deposits',
     [(CONV, '''                and not self._is_active():''', '''                and not (self._is_active() and self._conversions_enabled.get()):''')],
     '''
w = Dex()
w.call(OWNER, w.conv, 'disableConversions', True)
assert w.fails(OWNER, w.irc, 'transfer', w.conv, 10, b'None')
''')

seed('C20-prev-order', 'C20', 'the registry is updated and then restored',
     'the previous registry is forgotten',
     [(CONV, '''        self._prev_registry.set(self._registry.get())
        self._registry.set(new_registry)''', '''        self._registry.set(new_registry)
        self._prev_registry.set(self._registry.get())''')],
     '''
w = Dex()
r2 = w.deploy(OWNER, 'score_registry.score_registry.ScoreRegistry')
w.call(OWNER, w.registry, 'registerAddress', w.ask_const('SCORE_REGISTRY'), r2)
w.call(ALICE, w.conv, 'updateRegistry')
assert w.ask(w.conv, 'getRegistry') == r2
w.call(OWNER, w.conv, 'restoreRegistry')
assert w.ask(w.conv, 'getRegistry') == w.registry
''')

seed('C20-restore-unlocked', 'C20', 'restoring while the registry has not changed since installation',
     'a restore does not always lock further updates',
     [(CONV, '''        # set the registry as previous registry
        self._registry.set(self._prev_registry.get())
''', '''        if self._registry.get() == self._prev_registry.get():
            return

        # set the registry as previous registry
        self._registry.set(self._prev_registry.get())
''')],
     '''
w = Dex()
w.call(OWNER, w.conv, 'restoreRegistry')
assert w.ask(w.conv, 'isAllowRegistryUpdate') is False
''')

seed('C21-wrong-side', 'C21', 'purchases are disabled for the target of a cross-connector conversion only',
     'the purchase switch is checked on the source instead of the target',
     [(CONV, "require(to_connector.is_purchase_enabled.get(), 'required purchase enabled')",
       "require(from_connector.is_purchase_enabled.get(), 'required purchase enabled')")],
     '''
w = Dex()
w.call(OWNER, w.conv, 'disableConnectorPurchases', w.irc, True)
assert w.ask_fails(w.conv, 'getReturn', w.icxt, w.irc, 100)
w.ask(w.conv, 'getReturn', w.irc, w.icxt, 100)
''')

seed('C22-ten-hops', 'C22', 'a path of the maximum length of ten conversions',
     'paths of ten hops are refused',
     [(NET, 'require(2 < path_len <= self._MAX_CONVERSION_COUNT * 2 + 1 and path_len % 2 == 1, "invalid path")',
       'require(2 < path_len < self._MAX_CONVERSION_COUNT * 2 + 1 and path_len % 2 == 1, "invalid path")')],
     '''
w = Dex()
# ten flexible tokens, each owned by a stand-in converter that quotes one to one
toks = []
for i in range(10):
    f, c = cx(600 + i), cx(700 + i)
    w.hooks[f] = lambda s, n, a, k, v, c=c: c
    w.hooks[c] = lambda s, n, a, k, v: {'amount': a[2], 'fee': 0}
    toks += [f, cx(800 + i)]
assert w.ask(w.network, 'getExpectedReturnByPath', w.path(w.irc, *toks), 5) == 5
''')

seed('C22-adjacent-only', 'C22', 'a path that uses the same flexible token for its first and its third hop',
     'circular paths are accepted when the repeated token is not in neighbouring hops',
     [(NET, '''        path_set = {address for i, address in enumerate(path) if i % 2 == 1}
        require(len(path_set) == path_len // 2, "do not support circular path")''',
       '''        hop_tokens = path[1::2]
        require(all(a != b for a, b in zip(hop_tokens, hop_tokens[1:])), "do not support circular path")''')],
     '''
w = Dex()
f2, c2 = cx(600), cx(700)
w.hooks[f2] = lambda s, n, a, k, v: c2
w.hooks[c2] = lambda s, n, a, k, v: {'amount': a[2], 'fee': 0}
assert w.ask_fails(w.network, 'getExpectedReturnByPath', w.path(w.irc, w.flex, w.icxt, f2, w.irc, w.flex, w.icxt), 50)
''')

seed('C23-any-token', 'C23', 'some token contract sends a request whose path starts with a registered ICX token',
     'a worthless token can spend ICX tokens the network happens to hold',
     [(NET, 'require(dict_data["path"][0] == self.msg.sender, "wrong access, only token can call this method")',
       'require(dict_data["path"][0] == self.msg.sender or self._icx_tokens[dict_data["path"][0]],\n                "wrong access, only token can call this method")')],
     '''
w = Dex()
junk = w.deploy(ALICE, 'irc_token.irc_token.IRCToken', 'Junk', 'JNK', 1000, 0)
w.data_icx = None
req = json.dumps({'path': w.path(w.icxt, w.flex, w.flex), 'minReturn': 1}).encode()
# the network happens to hold ICX tokens
w.call(OWNER, w.icxt, 'transfer', w.network, 100, b'conversionResult')
assert w.fails(ALICE, junk, 'transfer', w.network, 100, req), 'ICX tokens spent by a worthless token'
''')

seed('C24-balance-not-delta', 'C24', 'the network already holds some of the hop\'s target token',
     'a hop passes on the network\'s whole balance instead of what the hop paid',
     [(NET, 'amount = amount_after_converting - amount_before_converting', 'amount = amount_after_converting - min(amount_before_converting, 0)')],
     '''
w = Dex()
w.call(OWNER, w.flex, 'transfer', w.network, 77, b'conversionResult')
w.call(OWNER, w.irc, 'transfer', ALICE, 500)
q = w.ask(w.network, 'getExpectedReturnByPath', w.path(w.irc, w.flex, w.flex), 500)
w.trade(ALICE, 500, w.irc, w.flex, w.flex)
assert w.bal(w.flex, ALICE) == q, (w.bal(w.flex, ALICE), q)
''')

seed('C24-min-hop', 'C24', 'a multi-hop conversion',
     'the minimum return is demanded of the first hop only, not of the last',
     [(NET, 'min_return if i == len(path)-2 else 1', 'min_return if i == 1 else 1')],
     '''
w = Dex()
flex2 = w.deploy(OWNER, 'flexible_token.flexible_token.FlexibleToken', 'Flex2', 'FL2', 1000, 0)
conv2 = w.deploy(OWNER, 'converter.converter.Converter', flex2, w.registry, 1000000, w.flex, 500000)
w.call(OWNER, w.flex, 'transfer', conv2, 5000, b'None')
w.call(OWNER, flex2, 'transferOwnerShip', conv2)
w.call(OWNER, conv2, 'acceptTokenOwnership')
w.call(OWNER, w.irc, 'transfer', ALICE, 500)
q = w.ask(w.network, 'getExpectedReturnByPath', w.path(w.irc, w.flex, w.flex, flex2, flex2), 500)
assert q > 0
try:
    w.trade(ALICE, 500, w.irc, w.flex, w.flex, flex2, flex2, min_return=q + 1)
    raise AssertionError('minimum return not honoured')
except Reverted:
    pass
''')

seed('C25-lenient-data', 'C25', 'tokens sent to the network with data that is not UTF-8',
     'tokens sent with unreadable data are kept instead of refused',
     [(NET, "        if _data == b'conversionResult':\n            return\n", "        if _data == b'conversionResult' or not _data:\n            return\n")],
     '''
w = Dex()
assert w.fails(OWNER, w.irc, 'transfer', w.network, 5, b''), 'kept'
assert w.fails(OWNER, w.irc, 'transfer', w.network, 5, b'\\xff'), 'kept'
''')

seed('C26-unregister-unknown', 'C26', 'unregistering a name that is not registered',
     'unregistering an unregistered name is accepted and logged',
     [(REG, 'require(self._score_address[_scoreName] is not None, "this score is not registered")',
       'require(self._score_address[_scoreName] is not None or _scoreName in self.SCORE_KEYS,\n                "this score is not registered")')],
     '''
w = Dex()
w.call(OWNER, w.registry, 'unregisterAddress', w.ask_const('NETWORK'))
assert w.ask(w.registry, 'getAddress', w.ask_const('NETWORK')) == ZERO
assert w.fails(OWNER, w.registry, 'unregisterAddress', w.ask_const('NETWORK'))
''')

seed('C26-prefix-name', 'C26', 'a name that only starts like a known one',
     'unknown score names can be registered',
     [(REG, 'require(_scoreName in self.SCORE_KEYS, ', 'require(any(_scoreName.startswith(key) for key in self.SCORE_KEYS), ')],
     '''
w = Dex()
assert w.fails(OWNER, w.registry, 'registerAddress', w.ask_const('NETWORK') + '2', w.network)
''')

seed('C27-quote-cache', 'C27', 'two queries of the connector balance with trading between them',
     'a query remembers its result in Python memory',
     [(CONV, '''        token = self.create_interface_score(_connectorToken, IRCToken)
        return token.balanceOf(self.address)''', '''        cache = self.__dict__.setdefault('_balance_cache', {})
        key = (_connectorToken, self.block_height)
        if key not in cache:
            token = self.create_interface_score(_connectorToken, IRCToken)
            cache[key] = token.balanceOf(self.address)
        return cache[key]''')],
     '''
w = Dex()
w.ask(w.conv, 'getConnectorBalance', w.irc)
w.call(OWNER, w.irc, 'transfer', ALICE, 500)
w.trade(ALICE, 100, w.irc, w.flex, w.flex)
assert w.ask(w.conv, 'getConnectorBalance', w.irc) == w.bal(w.irc, w.conv)
''')

seed('C35-negative-supply', 'C35', 'a token installed with a negative number of decimals',
     'inadmissible decimals are accepted',
     [(IRC, 'if _decimals < 0:', 'if _decimals < 0 < _initialSupply:')],
     '''
w = World()
try:
    w.deploy(OWNER, 'irc_token.irc_token.IRCToken', 'T', 'T', 0, -1)
    raise AssertionError('negative decimals accepted')
except Reverted:
    pass
''')
