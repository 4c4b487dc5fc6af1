"""A small in-memory chain that runs the project's real contracts together (demonstrations only).

Storage, ICX balances and event logs are plain Python data; every top-level call is a transaction that is undone
when it fails, and every call from one contract to another goes to the real target contract.
"""
import copy
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())

from iconservice import *  # noqa
from iconservice.base.address import Address, AddressPrefix
from iconservice.base.message import Message
from iconservice.base.transaction import Transaction
from iconservice.base.exception import IconServiceBaseException
from iconservice.database.db import IconScoreDatabase
from iconservice.icon_constant import IconScoreContextType, IconScoreFuncType
from iconservice.iconscore.icon_score_context import ContextContainer

ZERO = Address.from_prefix_and_int(AddressPrefix.CONTRACT, 0)


class Reverted(Exception):
    pass


def eoa(n):
    return Address.from_string('hx' + '%040x' % (0x1000 + n))


def cx(n):
    return Address.from_string('cx' + '%040x' % (0x2000 + n))


class _Step:
    def apply_step(self, *a):
        pass


class _Block:
    height = 10
    timestamp = 1000


class Store:
    """stands for ContextDatabase"""

    def __init__(self, world):
        self.world = world

    def get(self, context, key):
        return self.world.data.get(key)

    def put(self, context, key, value):
        if self.world.readonly:
            raise Reverted('write on a read-only context')
        self.world.data[key] = value

    def delete(self, context, key):
        if self.world.readonly:
            raise Reverted('delete on a read-only context')
        self.world.data.pop(key, None)


class Context:
    """stands for IconScoreContext and InternalCall"""
    type = IconScoreContextType.INVOKE

    def __init__(self, world):
        self.world = world
        self.msg = None
        self.tx = None
        self.block = _Block()
        self.step_counter = _Step()
        self.event_logs = []
        self.func_type = IconScoreFuncType.WRITABLE
        self.internal_call = self
        self.depth = 0

    @property
    def readonly(self):
        return self.world.readonly

    def get_owner(self, context, address):
        return self.world.deployer.get(address)

    def icx_transfer_call(self, src, dst, amount):
        self._call(src, dst, None, (), {}, amount)

    def other_external_call(self, src, dst, name, args, kwargs, amount):
        return self._call(src, dst, name, args, kwargs, amount)

    def get_icx_balance(self, address):
        return self.world.icx.get(address, 0)

    def _call(self, src, dst, name, args, kwargs, amount):
        w = self.world
        state = w.snapshot()
        old_msg, old_ro = self.msg, w.ro
        self.depth += 1
        try:
            if self.depth > 64:
                raise Reverted('call stack')
            if amount:
                w.move_icx(src, dst, amount)
            self.msg = Message(sender=src, value=amount)
            w.trace.append((src, dst, name, args, kwargs, amount))
            if dst in w.hooks:
                return w.hooks[dst](src, name, args, kwargs, amount)
            if not dst.is_contract:
                if name is not None:
                    raise Reverted('no contract at %s' % dst)
                return None
            score = w.scores.get(dst)
            if score is None:
                raise Reverted('no contract at %s' % dst)
            if name is None:
                return score._IconScoreBase__fallback_call()
            score.validate_external_method(name)
            if score._IconScoreBase__is_func_readonly(name):
                w.ro = True
            return score._IconScoreBase__external_call(func_name=name, arg_params=args, kw_params=kwargs)
        except BaseException:
            w.restore(state)
            raise
        finally:
            self.depth -= 1
            self.msg, w.ro = old_msg, old_ro


class World:
    def __init__(self):
        self.data = {}
        self.icx = {}
        self.scores = {}
        self.classes = {}
        self.deployer = {}
        self.hooks = {}         # address -> function(sender, name, args, kwargs, icx): stand-in contracts
        self.trace = []
        self.ro = False
        self.ctx = Context(self)
        self.n = 0
        ContextContainer._push_context(self.ctx)

    @property
    def readonly(self):
        return self.ro

    @property
    def events(self):
        return self.ctx.event_logs

    def snapshot(self):
        return dict(self.data), dict(self.icx), list(self.ctx.event_logs)

    def restore(self, s):
        self.data = dict(s[0])
        self.icx = dict(s[1])
        self.ctx.event_logs[:] = s[2]

    def move_icx(self, src, dst, amount):
        if amount < 0 or self.icx.get(src, 0) < amount:
            raise Reverted('out of ICX')
        self.icx[src] = self.icx.get(src, 0) - amount
        self.icx[dst] = self.icx.get(dst, 0) + amount

    def make(self, addr, cls):
        return cls(IconScoreDatabase(addr, Store(self)))

    def deploy(self, sender, where, *args, addr=None, **kw):
        """where: 'network.network.Network' below contracts/"""
        mod, _, name = where.rpartition('.')
        cls = getattr(importlib.import_module('contracts.' + mod), name)
        self.n += 1
        addr = addr or cx(self.n)
        self.deployer[addr] = sender
        state = self.snapshot()
        self.ctx.msg = Message(sender=sender, value=0)
        self.ctx.tx = Transaction(origin=sender)
        self.ctx.event_logs.clear()
        self.trace.clear()
        self.classes[addr] = cls
        self.scores[addr] = self.make(addr, cls)
        try:
            self.scores[addr].on_install(*args, **kw)
        except BaseException as e:
            self.restore(state)
            del self.scores[addr]
            raise Reverted(repr(e)) from e
        return addr

    def upgrade(self, sender, addr):
        self.ctx.msg = Message(sender=sender, value=0)
        self.ctx.tx = Transaction(origin=sender)
        self.ctx.event_logs.clear()
        self.scores[addr] = self.make(addr, self.classes[addr])
        self.scores[addr].on_update()

    def restart(self):
        """a node restart: every contract object is made anew from storage"""
        for a, cls in self.classes.items():
            if a in self.scores:
                self.scores[a] = self.make(a, cls)

    def call(self, sender, addr, name, *args, value=0, **kw):
        """a transaction; raises Reverted (and undoes everything) when it fails"""
        state = self.snapshot()
        self.ctx.event_logs.clear()
        self.trace.clear()
        self.ctx.tx = Transaction(origin=sender)
        self.ctx.msg = None
        self.ctx.depth = 0
        self.ro = False
        try:
            return self.ctx._call(sender, addr, name, args, kw, value)
        except AssertionError:
            raise
        except BaseException as e:
            self.restore(state)
            self.ctx.event_logs.clear()
            raise Reverted(repr(e)) from e

    def ask(self, addr, name, *args, **kw):
        """a read-only query; fails when it writes anything"""
        state = self.snapshot()
        self.trace.clear()
        self.ctx.tx = None
        self.ctx.depth = 0
        self.ro = True
        before = dict(self.data)
        try:
            r = self.ctx._call(eoa(999), addr, name, args, kw, 0)
        except AssertionError:
            raise
        except BaseException as e:
            self.restore(state)
            raise Reverted(repr(e)) from e
        finally:
            self.ro = False
        assert before == self.data, 'a query changed storage'
        return r

    def fails(self, sender, addr, name, *args, value=0, **kw):
        try:
            self.call(sender, addr, name, *args, value=value, **kw)
        except Reverted:
            return True
        return False

    def ask_fails(self, addr, name, *args, **kw):
        try:
            self.ask(addr, name, *args, **kw)
        except Reverted:
            return True
        return False

    def event(self, name, score=None):
        """arguments of the logged events of that name"""
        return [list(e.indexed[1:]) + list(e.data) for e in self.events
                if e.indexed[0].split('(')[0] == name and score in (None, e.score_address)]

    def event_records(self, name):
        return [e for e in self.events if e.indexed[0].split('(')[0] == name]


OWNER, MANAGER, ALICE, BOB, CAROL = (eoa(i) for i in range(1, 6))


class Dex(World):
    """registry, network, ICX token, a flexible token and its active converter with two connectors:
    the ICX token and a plain IRC-2 token"""

    def __init__(self, fee=0, max_fee=1000000, w1=500000, w2=500000, supply=10000, icx=5000, irc=8000,
                 virtual1=None, virtual2=None, activate=True):
        super().__init__()
        o = OWNER
        for a in (OWNER, ALICE, BOB, CAROL):
            self.icx[a] = 10 ** 9
        self.registry = self.deploy(o, 'score_registry.score_registry.ScoreRegistry')
        self.network = self.deploy(o, 'network.network.Network')
        self.icxt = self.deploy(o, 'icx_token.icx_token.IcxToken')
        self.flex = self.deploy(o, 'flexible_token.flexible_token.FlexibleToken', 'Flex', 'FLX', supply, 0)
        self.irc = self.deploy(o, 'irc_token.irc_token.IRCToken', 'Irc', 'IRC', 10 ** 9, 0)
        self.call(o, self.registry, 'registerAddress', self.ask_const('NETWORK'), self.network)
        self.call(o, self.network, 'registerIcxToken', self.icxt, True)
        self.conv = self.deploy(o, 'converter.converter.Converter', self.flex, self.registry, max_fee, self.icxt, w1)
        self.call(o, self.conv, 'addConnector', self.irc, w2, False)
        if fee:
            self.call(o, self.conv, 'setConversionFee', fee)
        if virtual1 is not None:
            self.call(o, self.conv, 'updateConnector', self.icxt, w1, True, virtual1)
        if virtual2 is not None:
            self.call(o, self.conv, 'updateConnector', self.irc, w2, True, virtual2)
        self.call(o, self.icxt, 'deposit', value=icx + 10 ** 6)
        if icx:
            self.call(o, self.icxt, 'transfer', self.conv, icx, b'None')
        if irc:
            self.call(o, self.irc, 'transfer', self.conv, irc, b'None')
        if activate:
            self.activate()

    def ask_const(self, name):
        from contracts.interfaces.abc_score_registry import ABCScoreRegistry
        return getattr(ABCScoreRegistry, name)

    def activate(self):
        self.call(OWNER, self.flex, 'transferOwnerShip', self.conv)
        self.call(OWNER, self.conv, 'acceptTokenOwnership')

    def path(self, *a):
        return ','.join(str(x) for x in a)

    def bal(self, token, who):
        return self.ask(token, 'balanceOf', who)

    def supply(self, token):
        return self.ask(token, 'totalSupply')

    def trade(self, who, amount, *path, min_return=1, to=None):
        """send IRC tokens along a path through the network"""
        d = {'path': self.path(*path), 'minReturn': min_return}
        if to is not None:
            d['for'] = str(to)
        return self.call(who, path[0], 'transfer', self.network, amount, json.dumps(d).encode())


def msg(to, min_return=1):
    return json.dumps({'toToken': str(to), 'minReturn': min_return}).encode()
