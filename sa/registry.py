"""Which rule function decides which property."""
RULES = {}
for _m, _ids in (("owner", (1, 2, 3, 35)), ("tokens", range(4, 11)), ("converter", range(11, 22)),
                 ("network", range(22, 27)), ("globals", (27, 28, 29, 30, 31, 34)), ("formula", (32, 33)),
                 ("queries", (36, 37)), ("storage", (38,))):
    for _i in _ids:
        RULES["C%02d" % _i] = (_m, "c%02d" % _i)


def available(pid):
    import importlib
    m, f = RULES[pid]
    try:
        return getattr(importlib.import_module("sa.rules." + m), f, None)
    except ModuleNotFoundError:
        return None
