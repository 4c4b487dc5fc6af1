"""Planted changes, sixth batch (see plant.py)."""
SEEDS = {}


def seed(sid, prop, needs, breaks, edits, demo, pre):
    SEEDS[sid] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=pre + demo)


STO = 'contracts/utility/storage.py'
SPRE = '''
import os, sys
sys.path.insert(0, os.getcwd())
from iconservice import *
from contracts.utility.storage import Storage
from tests import create_db
def new(*fields, db=None):
    s = Storage(db or create_db(Address.from_string("cx" + "1" * 40)))
    s.add_fields(list(fields))
    return s
'''
seed('C38-long-names', 'C38', 'two declared fields whose names agree in their first sixteen characters',
     'the container key is cut, so two fields share one place',
     [(STO, "db = db_class(name, self._db, value_type=value_type)", "db = db_class(name[:16], self._db, value_type=value_type)")],
     '''
s = new(('conversion_whitelist', VarDB, int), ('conversion_whitelist_size', VarDB, int))
s.conversion_whitelist = 1
s.conversion_whitelist_size = 2
assert s.conversion_whitelist == 1, s.conversion_whitelist
''', SPRE)
seed('C38-read-cache', 'C38', 'the stored value changes behind the wrapper (another wrapper, a second transaction) after an assignment through it',
     'an assigned value is remembered in the object and answered instead of the stored one',
     [(STO, "            attr.set(value)\n", "            attr.set(value)\n            self.__dict__[f'__{item}'] = value\n"),
      (STO, "                return attr.get() if isinstance(attr, VarDB) else attr",
       "                if not isinstance(attr, VarDB):\n                    return attr\n                return self.__dict__.get(f'__{item}') or attr.get()")],
     '''
db = create_db(Address.from_string("cx" + "1" * 40))
a, b = new(('fee', VarDB, int), db=db), new(('fee', VarDB, int), db=db)
a.fee = 5
b.fee = 7
assert a.fee == 7, a.fee
''', SPRE)
seed('C38-shared-fields', 'C38', 'two wrappers over different databases declare a field of the same name',
     'the containers are attached to the class, so the last wrapper takes all accesses',
     [(STO, "setattr(self, f'_{name}', db)", "setattr(type(self), f'_{name}', db)")],
     '''
a = new(('weight', VarDB, int))
b = new(('weight', VarDB, int))
a.weight = 5
assert b.weight == 0, b.weight
''', SPRE)
seed('C38-reset-lost', 'C38', 'a field is assigned the value false (or zero, or the empty text) after holding something else',
     'an assignment of an empty value is dropped',
     [(STO, "        if isinstance(attr, VarDB):\n            attr.set(value)", "        if isinstance(attr, VarDB):\n            if value or not attr.get():\n                attr.set(value)")],
     '''
s = new(('enabled', VarDB, bool))
s.enabled = True
s.enabled = False
assert s.enabled is False, s.enabled
''', SPRE)
seed('C38-bool-as-int', 'C38', 'a declared boolean field is read', 'booleans are kept as numbers',
     [(STO, "value_type=value_type)", "value_type=int if issubclass(value_type, int) else value_type)")],
     '''
s = new(('enabled', VarDB, bool))
s.enabled = True
assert s.enabled is True, s.enabled
''', SPRE)
