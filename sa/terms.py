"""Canonical value terms (value numbering).

Every abstract scalar is a hash-consed term.  Integer arithmetic is kept in polynomial normal
form so that algebraically equal expressions written differently get the same value number.
Nothing here evaluates repository code and nothing is handed to a solver.
"""
from math import gcd

_TABLE = {}


class Term:
    __slots__ = ("op", "args", "ty", "id", "nonnull")

    def __repr__(self):
        return show(self)


def mk(op, args=(), ty="any", nonnull=False):
    key = (op, tuple(args), ty)
    t = _TABLE.get(key)
    if t is None:
        t = Term.__new__(Term)
        t.op, t.args, t.ty, t.id = op, tuple(args), ty, len(_TABLE)
        t.nonnull = nonnull or ty in ("int", "bool", "bytes_nn", "str_nn")
        _TABLE[key] = t
    elif nonnull and not t.nonnull:
        t.nonnull = True
    return t


PLAIN = (int, str, bytes, bool, float, type(None))


def tagkey(v):
    # hashable key distinguishing True from 1 etc.
    return (type(v).__name__, v)


def const(v):
    """Constant term for a python scalar."""
    if type(v) not in PLAIN:
        v = next(t(v) for t in (int, str, bytes, float) if isinstance(v, t))
    return mk("const", (tagkey(v),), {"bool": "bool", "int": "int", "str": "str", "bytes": "bytes",
                                      "NoneType": "none", "float": "float"}.get(type(v).__name__, "any"),
              nonnull=v is not None)


def is_const(t):
    return isinstance(t, Term) and t.op == "const"


def cval(t):
    return t.args[0][1]


SCALARS = (int, str, bytes, bool, float, type(None))


def T(v):
    """python scalar or Term -> Term"""
    if isinstance(v, Term):
        return v
    if isinstance(v, SCALARS):
        return const(v)
    raise TypeError("not a scalar: %r" % (v,))


def N(t):
    """normalise: const Term -> python scalar"""
    if isinstance(t, Term) and t.op == "const":
        return cval(t)
    return t


def sym(name, ty="any", nonnull=False):
    return mk("sym", (name,), ty, nonnull)


# ---------------------------------------------------------------- polynomials
# poly dict: monomial -> coeff ; monomial: tuple of (atom term, exponent) sorted by atom id

def to_poly(v):
    if isinstance(v, bool):
        return {(): int(v)} if v else {}
    if isinstance(v, int):
        return {(): v} if v else {}
    if isinstance(v, Term):
        if v.op == "const":
            c = cval(v)
            if isinstance(c, (bool, int)):
                return to_poly(c)
            return {((v, 1),): 1}
        if v.op == "poly":
            return dict(v.args)
        return {((v, 1),): 1}
    raise TypeError(v)


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


def from_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return 0
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return c
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda mc: _mkey(mc[0])))
    return mk("poly", items, "int", True)


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + k * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # merge powers of the same constant base: 2^a * 2^b
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id))


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mono_mul(m1, m2)
            n = r.get(m, 0) + c1 * c2
            if n:
                r[m] = n
            else:
                r.pop(m, None)
    return r


def numeric(v):
    return isinstance(v, (int, bool)) or (isinstance(v, Term) and v.ty in ("int", "any", "bool"))


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return from_poly(padd(to_poly(a), to_poly(b)))


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return from_poly(padd(to_poly(a), to_poly(b), -1))


def neg(a):
    return sub(0, a)


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 400:
        x, y = sorted((T(a), T(b)), key=lambda t: t.id)
        return mk("bigmul", (x, y), "int", True)
    return from_poly(pmul(pa, pb))


def floordiv(a, b):
    if isinstance(a, int) and isinstance(b, int) and b != 0:
        return a // b
    if isinstance(b, int) and not isinstance(b, bool) and b != 0:
        if b == 1:
            return a
        if b > 0:
            p = to_poly(a)
            q, r = {}, {}
            for m, c in p.items():
                if c % b == 0:
                    q[m] = c // b
                elif m == ():
                    if c // b:
                        q[m] = c // b
                    r[m] = c % b
                else:
                    r[m] = c
            if set(r) <= {()}:
                return from_poly(q)
            rt = from_poly(r)
            # floor(floor(x/k)/b) = floor(x/(k*b))
            if isinstance(rt, Term) and rt.op == "fdiv" and is_const(rt.args[1]) and cval(rt.args[1]) > 0:
                inner = floordiv(N(rt.args[0]), cval(rt.args[1]) * b)
            else:
                # divide common factor
                g = b
                for m, c in r.items():
                    g = gcd(g, c)
                if g > 1:
                    inner = floordiv(from_poly({m: c // g for m, c in r.items()}), b // g)
                else:
                    inner = mk("fdiv", (T(rt), T(b)), "int", True)
            return add(from_poly(q), inner)
    if isinstance(a, int) and a == 0:
        return 0
    # cancel exact common monomial?  (x*y)//y is only valid for y != 0; left symbolic on purpose
    return mk("fdiv", (T(a), T(b)), "int", True)


def split_div(t):
    """take the exact multiples of the divisor out of a floor division by a monomial:
    floor((q*d + r) / d) = q + floor(r / d); only while a division by d remains (d may be zero)"""
    if isinstance(t, Term) and t.op == "poly":
        out = 0
        for m, c in t.args:
            x = c
            for a, e in m:
                a = split_div(a) if a.op == "fdiv" else a
                for _ in range(e):
                    x = mul(x, a)
            out = add(out, x)
        return out
    if not (isinstance(t, Term) and t.op == "fdiv"):
        return t
    a, b = split_div(N(t.args[0])), N(t.args[1])
    if isinstance(b, Term):
        pb = to_poly(b)
        if len(pb) == 1:
            (mb, cb), = pb.items()
            q, r = {}, {}
            for m, c in to_poly(a).items():
                e = dict(m)
                if c % cb == 0 and all(e.get(x, 0) >= k for x, k in mb):
                    for x, k in mb:
                        e[x] -= k
                    q[tuple((x, e[x]) for x, _ in m if e[x])] = c // cb
                else:
                    r[m] = c
            if q and r:
                return add(from_poly(q), floordiv(from_poly(r), b))
    return floordiv(a, b)


def mod(a, b):
    if isinstance(a, int) and isinstance(b, int) and b != 0:
        return a % b
    return mk("mod", (T(a), T(b)), "int", True)


def power(a, b):
    if isinstance(a, int) and isinstance(b, int) and b >= 0 and abs(b) < 4096:
        return a ** b
    if isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 8:
        r = 1
        for _ in range(b):
            r = mul(r, a)
        return r
    return mk("pow", (T(a), T(b)), "int", True)


def lshift(a, b):
    if isinstance(a, int) and isinstance(b, int) and 0 <= b < 100000:
        return a << b
    return mul(a, power(2, b))


def rshift(a, b):
    if isinstance(a, int) and isinstance(b, int) and b >= 0:
        return a >> b
    return floordiv(a, power(2, b))


def multiple_of(t, n, memo=None):
    """t is, by its form, a multiple of n"""
    if isinstance(t, int):
        return t % n == 0
    if not isinstance(t, Term) or n == 1:
        return n == 1
    memo = {} if memo is None else memo
    k = (t.id, n)
    if k not in memo:
        memo[k] = False
        if t.op == "const":
            r = isinstance(cval(t), int) and cval(t) % n == 0
        elif t.op == "poly":
            r = True
            for m, c in t.args:
                left = n // gcd(n, c)
                if left > 1 and not (m and any(multiple_of(a, left, memo) for a, e in m)):
                    r = False
                    break
        elif t.op == "ite":
            r = multiple_of(N(t.args[1]), n, memo) and multiple_of(N(t.args[2]), n, memo)
        else:
            r = False
        memo[k] = r
    return memo[k]


def bitop(op, a, b):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return {"&": a & b, "|": a | b, "^": a ^ b}[op]
    if op == "&":
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int) and not isinstance(x, bool) and x > 0 and (x & (x + 1)) == 0:
                return mod(y, x + 1)
            if isinstance(x, int) and not isinstance(x, bool) and x > 0 and (x & (x - 1)) == 0 \
                    and isinstance(y, Term) and y.ty == "int":
                return mul(x, mod(floordiv(y, x), 2))
    if op in "|^":
        # disjoint bits: a multiple of 2^k and a number below 2^k
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int) and not isinstance(x, bool) and x >= 0 and isinstance(y, Term) and y.ty == "int" \
                    and multiple_of(y, 1 << x.bit_length()):
                return add(x, y)
    ty = "bool" if all(isinstance(v, bool) or (isinstance(v, Term) and v.ty == "bool") for v in (a, b)) else "int"
    x, y = sorted((T(a), T(b)), key=lambda t: t.id)
    return mk("bit" + op, (x, y), ty, True)


# ---------------------------------------------------------------- conditions

def ge0(p):
    """p >= 0"""
    if isinstance(p, (int, bool)):
        return p >= 0
    d = to_poly(p)
    c = d.pop((), 0)
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        d = {m: k // g for m, k in d.items()}
        c = c // g
    if len(d) == 1:
        (m, k), = d.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "fdiv" and is_const(m[0][0].args[1]) \
                and cval(m[0][0].args[1]) > 0:
            # floor(P/b) + c >= 0  <=>  P + c*b >= 0 ;  -floor(P/b) + c >= 0  <=>  (c+1)*b - 1 - P >= 0
            b = cval(m[0][0].args[1])
            inner = to_poly(N(m[0][0].args[0]))
            q = padd(inner, {(): c * b}) if k > 0 else padd({(): (c + 1) * b - 1}, inner, -1)
            return ge0(from_poly(q))
    if c:
        d[()] = c
    return mk("ge0", (T(from_poly(d)),), "bool", True)


def eq0(p):
    if isinstance(p, (int, bool)):
        return p == 0
    d = to_poly(p)
    c = d.get((), 0)
    g = 0
    for m, k in d.items():
        if m != ():
            g = gcd(g, abs(k))
    if g > 1:
        if c % g:
            return False
        d = {m: k // g for m, k in d.items()}
    if len(d) == 2 and () in d:
        # a remainder modulo 2 is 0 or 1
        (m, k), = [(m, k) for m, k in d.items() if m != ()]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "mod" and is_const(m[0][0].args[1]) \
                and cval(m[0][0].args[1]) == 2 and d[()] == -k:
            return notl(eq0(m[0][0]))
    first = min((m for m in d if m != ()), key=_mkey)
    if d[first] < 0:
        d = {m: -k for m, k in d.items()}
    return mk("eq0", (T(from_poly(d)),), "bool", True)


def lt(a, b):
    return ge0(sub(sub(b, a), 1))


def le(a, b):
    return ge0(sub(b, a))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def notl(x):
    if isinstance(x, bool):
        return not x
    if isinstance(x, Term):
        if x.op == "const":
            return not cval(x)
        if x.op == "not":
            return x.args[0]
        if x.op == "ge0":
            return ge0(sub(-1, N(x.args[0])))
        return mk("not", (x,), "bool", True)
    raise TypeError(x)


INJECTIVE = {"to_bytes", "encode", "str", "json_dumps", "addr_from_str_canon"}


def eq(a, b):
    """equality literal (bool or Term)"""
    a, b = N(a), N(b)
    ta, tb = isinstance(a, Term), isinstance(b, Term)
    if not ta and not tb:
        if isinstance(a, SCALARS) and isinstance(b, SCALARS):
            return a == b
        return a is b
    if ta and tb and a is b:
        return True
    # boolean terms against constants
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Term) and x.ty == "bool" and isinstance(y, bool):
            return x if y else notl(x)
    # None
    for x, y in ((a, b), (b, a)):
        if y is None and isinstance(x, Term) and x.nonnull:
            return False
    tya = a.ty if ta else type(a).__name__
    tyb = b.ty if tb else type(b).__name__
    if tya in ("int", "bool") and tyb in ("int", "bool") or \
            (tya == "int" and tyb == "any" and (a.op == "poly" if ta else True)) or \
            (tyb == "int" and tya == "any" and (b.op == "poly" if tb else True)):
        return eq0(sub(a, b))
    # scalar type clash
    cls = {"str_nn": "str", "bytes_nn": "bytes", "NoneType": "none"}
    ka, kb = cls.get(tya, tya), cls.get(tyb, tyb)
    known = ("int", "str", "bytes", "addr", "float")
    if ka in known and kb in known and ka != kb and not ({ka, kb} <= {"int", "float"}):
        if (not ta or a.nonnull) or (not tb or b.nonnull):
            return False
    if ta and tb and a.op == b.op and a.op in INJECTIVE and len(a.args) == len(b.args) \
            and a.args[1:] == b.args[1:]:
        return eq(a.args[0], b.args[0])
    if ta and tb and a.op == b.op == "concat" and len(a.args) == len(b.args):
        diff = [(x, y) for x, y in zip(a.args, b.args) if x is not y]
        if len(diff) == 1:
            return eq(*diff[0])
    x, y = sorted((T(a), T(b)), key=lambda t: t.id)
    return mk("eq", (x, y), "bool", True)


def ite(c, a, b):
    c = N(c)
    if isinstance(c, bool):
        return a if c else b
    a, b = N(a), N(b)
    if a is b or (not isinstance(a, Term) and not isinstance(b, Term) and a == b and type(a) is type(b)):
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "ge0":
        n = notl(c)
        if isinstance(n, Term) and n.op == "ge0" and n.id < c.id:
            c, a, b = n, b, a
    if all(isinstance(v, int) and not isinstance(v, bool) or isinstance(v, Term) and v.ty == "int" for v in (a, b)):
        d = sub(a, b)
        if isinstance(d, int) and not (d == 1 and b == 0 and not isinstance(b, Term)):
            return add(b, mul(d, mk("ite", (c, T(1), T(0)), "int", True)))
    ty = "any"
    tys = {(v.ty if isinstance(v, Term) else type(v).__name__) for v in (a, b)}
    if tys <= {"int", "bool"}:
        ty = "int" if "int" in tys else "bool"
    elif len(tys) == 1:
        ty = tys.pop()
    return mk("ite", (c, T(a), T(b)), ty)


def rebuild(op, args, t):
    """Rebuild a term with new args, re-simplifying."""
    if op == "ge0":
        return ge0(N(args[0]))
    if op == "eq0":
        return eq0(N(args[0]))
    if op == "not":
        return notl(N(args[0]))
    if op == "eq":
        return eq(args[0], args[1])
    if op == "fdiv":
        return floordiv(N(args[0]), N(args[1]))
    if op == "mod":
        return mod(N(args[0]), N(args[1]))
    if op == "pow":
        return power(N(args[0]), N(args[1]))
    if op == "ite":
        return ite(N(args[0]), N(args[1]), N(args[2]))
    if op in ("bit&", "bit|", "bit^"):
        return bitop(op[3:], N(args[0]), N(args[1]))
    return mk(op, args, t.ty, t.nonnull)


def subst(t, f, memo=None):
    """Bottom-up substitution; f(term) -> replacement or None. Returns python scalar or Term."""
    if not isinstance(t, Term):
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return N(r)
    rep = f(t)
    if rep is not None:
        memo[t] = T(rep)
        return N(rep)
    if t.op in ("const", "sym"):
        memo[t] = t
        return N(t)
    if t.op == "poly":
        acc = 0
        changed = False
        for m, c in t.args:
            term = c
            for a, e in m:
                na = subst(a, f, memo)
                if na is not a:
                    changed = True
                term = mul(term, power(na, e))
            acc = add(acc, term)
        r = acc if changed else t
    else:
        nargs = tuple(_sub_arg(a, f, memo) for a in t.args)
        r = t if all(x is y or (not isinstance(x, Term) and x == y) for x, y in zip(nargs, t.args)) \
            else rebuild(t.op, nargs, t)
    memo[t] = T(r)
    return N(r)


def _sub_arg(a, f, memo):
    if isinstance(a, Term):
        return T(subst(a, f, memo))
    if isinstance(a, tuple):
        return tuple(_sub_arg(x, f, memo) for x in a)
    return a


def atoms(t, acc=None):
    """All subterms."""
    if acc is None:
        acc = set()
    if isinstance(t, tuple):
        for x in t:
            atoms(x, acc)
        return acc
    if not isinstance(t, Term) or t in acc:
        return acc
    acc.add(t)
    if t.op == "poly":
        for m, _ in t.args:
            for a, _e in m:
                atoms(a, acc)
    else:
        for a in t.args:
            if isinstance(a, (Term, tuple)):
                atoms(a, acc)
    return acc


def show(t, depth=0):
    if not isinstance(t, Term):
        return repr(t)
    if depth > 7:
        return "…"
    d = depth + 1
    if t.op == "const":
        return repr(cval(t))
    if t.op == "sym":
        return str(t.args[0])
    if t.op == "poly":
        parts = []
        for m, c in t.args:
            f = "*".join(show(a, d) + ("^%d" % e if e > 1 else "") for a, e in m)
            if not f:
                parts.append("%+d" % c)
            elif c == 1:
                parts.append("+" + f)
            elif c == -1:
                parts.append("-" + f)
            else:
                parts.append("%+d*%s" % (c, f))
        s = " ".join(parts)
        return "(" + (s[1:] if s.startswith("+") else s) + ")"
    if t.op == "ge0":
        return show(t.args[0], d) + ">=0"
    if t.op == "eq0":
        return show(t.args[0], d) + "==0"
    if t.op == "eq":
        return "(%s == %s)" % (show(t.args[0], d), show(t.args[1], d))
    if t.op == "not":
        return "not(%s)" % show(t.args[0], d)
    if t.op == "fdiv":
        return "(%s // %s)" % (show(t.args[0], d), show(t.args[1], d))
    if t.op == "cell":
        fam, keys, ep = t.args[0], t.args[1], t.args[2]
        return "%s%s%s" % (fam[1], "".join("[%s]" % show(k, d) for k in keys), "@%s" % ep if ep else "")
    if t.op == "ext":
        return "%s.%s(%s)%s" % (show(t.args[1], d), t.args[0],
                                ", ".join(show(a, d) for a in t.args[2]), "@%s" % t.args[3] if t.args[3] else "")

    def sh(a):
        if isinstance(a, Term):
            return show(a, d)
        if isinstance(a, tuple):
            return "(" + ", ".join(sh(x) for x in a) + ")"
        return repr(a)
    return "%s(%s)" % (t.op, ", ".join(sh(a) for a in t.args))
