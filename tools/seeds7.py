"""Planted changes, seventh batch (see plant.py)."""
exec(open('/verif/tools/seeds4.py').read().split("seed('C01-pending-manager'")[0].split('"""', 2)[2])
ICX = 'contracts/icx_token/icx_token.py'

seed('C12-identity', 'C12', 'the sending token and the wanted token arrive as two equal address objects',
     'a token can be converted into itself',
     [(CONV, 'require(from_token != to_token, ', 'require(from_token is not to_token, ')],
     '''
w = Dex()
w.call(OWNER, w.irc, 'transfer', w.network, 500, b'conversionResult')
try:
    w.call(w.network, w.irc, 'transfer', w.conv, 500, msg(w.irc))
except Reverted:
    pass
else:
    raise AssertionError('converted a token into itself')
''')

seed('C08-attr', 'C08', 'a receiving contract fails with an AttributeError of its own',
     'tokens stay with a contract whose acceptance code failed',
     [(IRC, '''            recipient_score.tokenFallback(_from, _value, _data)
''', '''            try:
                recipient_score.tokenFallback(_from, _value, _data)
            except AttributeError:
                # contracts that do not implement tokenFallback can hold tokens, too
                pass
''')],
     '''
w = Dex()
shop = cx(77)
def accept(src, name, args, kw, amount):
    None.order(args)
w.hooks[shop] = accept
assert w.fails(OWNER, w.irc, 'transfer', shop, 100), 'the transfer stands although the receiver failed'
assert w.bal(w.irc, shop) == 0
''')

seed('C01-manager-owner', 'C01', 'the management has been handed to somebody else than the owner',
     'the manager passes the owner check of the converter',
     [(MAN, '''    @external(readonly=True)
    def getManager(''', '''    def require_owner_only(self):
        # the manager acts for the owner
        if self.msg.sender != self._manager.get():
            Owned.require_owner_only(self)

    @external(readonly=True)
    def getManager(''')],
     '''
w = Dex()
w.call(OWNER, w.conv, 'transferManagement', MANAGER)
w.call(MANAGER, w.conv, 'acceptManagement')
assert w.fails(MANAGER, w.conv, 'transferOwnerShip', MANAGER), 'the manager nominates an owner'
''')

seed('C11-target-weight', 'C11', 'a cross conversion between connectors of different weights',
     'the price data of the target connector carries the weight of the source',
     [(CONV, '''        self.PriceDataUpdate(to_token, token_supply, self.getConnectorBalance(to_token),
                             to_connector.weight.get())''', '''        self.PriceDataUpdate(to_token, token_supply, self.getConnectorBalance(to_token),
                             from_connector.weight.get())''')],
     '''
w = Dex()
w.call(OWNER, w.conv, 'updateConnector', w.irc, 300000, False, 0)
w.call(OWNER, w.irc, 'transfer', ALICE, 500)
w.trade(ALICE, 100, w.irc, w.flex, w.icxt)
ws = {e[0]: e[3] for e in w.event('PriceDataUpdate')}
for t in (w.irc, w.icxt):
    assert ws[t] == w.ask(w.conv, 'getConnector', t)['weight'], ws
''')
