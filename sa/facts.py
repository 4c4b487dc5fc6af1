"""Abstract facts known on one partition (path class): equalities (union-find), disequalities,
boolean literals and linear inequalities over value numbers."""
from .terms import *
from .terms import _mkey


class Infeasible(Exception):
    pass


NONNEG_OPS = {"len", "card", "msgvalue"}


class Facts:
    def __init__(self):
        self.parent = {}
        self.lits = {}          # original literal term -> bool
        self.order = []         # assumption order (literal, bool)
        self.gefacts = []       # original polys p >= 0   (Terms)
        self.version = 0
        self._cc = {}
        self._ccv = -1
        self._ge = None
        self.cards = []         # (card term, elems)

    # ---- union find over atoms
    def find(self, t):
        p = self.parent
        while t in p:
            t = p[t]
        return t

    def canon(self, v):
        if not isinstance(v, Term):
            return v
        if not self.parent:
            return N(v)
        if self._ccv != self.version:
            self._cc = {}
            self._ccv = self.version
        r = self._cc.get(v)
        if r is None:
            r = subst(v, self._rep)
            r = T(r)
            # result may itself be a member of a class after rebuilding
            r2 = self.find(r)
            for _ in range(4):
                if r2 is r:
                    break
                r = T(subst(r2, self._rep))
                r2 = self.find(r)
            self._cc[v] = r
        return N(r)

    def _rep(self, t):
        if t in self.parent:
            return self.find(t)
        return None

    # ---- inequality store
    def ges(self):
        if self._ge is None or self._ge[0] != (self.version, len(self.gefacts)):
            seen, out = set(), []
            for p in self.gefacts:
                g = ge0(self.canon(p))
                if isinstance(g, bool):
                    continue
                if g not in seen:
                    seen.add(g)
                    out.append(to_poly(N(g.args[0])))
            self._ge = ((self.version, len(self.gefacts)), out)
        return self._ge[1]

    def _nonneg(self, p):
        """obviously p >= 0"""
        for m, c in p.items():
            if m == ():
                if c < 0:
                    return False
            elif c < 0:
                return False
            else:
                for a, e in m:
                    if e % 2 and not intrinsic_nonneg(a):
                        return False
        return True

    def entails_ge(self, p, depth=2):
        """p: poly dict; is p >= 0 implied?"""
        if self._nonneg(p):
            return True
        F = self.ges()
        return self._ent(p, F, depth, 0)

    def _ent(self, p, F, depth, start):
        if self._nonneg(p):
            return True
        if depth == 0:
            return False
        # pick a negative, non-intrinsic monomial to eliminate
        bad = [m for m, c in p.items() if m != () and (c < 0 or not all(intrinsic_nonneg(a) for a, e in m if e % 2))]
        if not bad:
            bad = [m for m in p if m != ()][:1]
            if not bad:
                return False
        m = bad[0]
        c = p[m]
        for f in F:
            fc = f.get(m)
            if fc is None or (fc > 0) != (c > 0):
                continue
            # p - (c/fc) f ; scale to stay integral
            k, l = abs(fc), abs(c)
            q = {}
            for mm, cc in p.items():
                q[mm] = cc * k
            q = padd(q, f, -l)
            if self._ent(q, F, depth - 1, 0):
                return True
        return False

    # ---- queries
    def decide(self, lit, depth=2):
        lit = N(lit)
        if isinstance(lit, bool):
            return lit
        if not isinstance(lit, Term):
            return bool(lit)
        c = N(self.canon(lit))
        if isinstance(c, bool):
            return c
        return self._decide(c, depth)

    def _decide(self, c, depth):
        if c.op == "not":
            r = self._decide(c.args[0], depth)
            return None if r is None else not r
        if c.op == "ge0":
            p = to_poly(N(c.args[0]))
            if self.entails_ge(p, depth):
                return True
            if self.entails_ge(padd({(): -1}, p, -1), depth):
                return False
            return None
        if c.op == "eq0":
            p = to_poly(N(c.args[0]))
            mp = padd({}, p, -1)
            pm1 = padd(p, {(): -1})
            mpm1 = padd(mp, {(): -1})
            if self.entails_ge(pm1, depth) or self.entails_ge(mpm1, depth):
                return False
            if self.entails_ge(p, depth) and self.entails_ge(mp, depth):
                return True
        if c.op == "ite":
            cc = self._decide(c.args[0], depth) if isinstance(c.args[0], Term) else None
            if cc is not None:
                return self.decide(c.args[1] if cc else c.args[2])
        v = self.lits.get(c)
        if v is not None:
            return v
        for l, v in self.lits.items():
            cl = self.canon(l)
            if cl is c:
                return v
            if isinstance(cl, Term) and cl.op == "not" and cl.args[0] is c:
                return not v
        return None

    # ---- assumptions
    def assume(self, lit, val=True):
        lit = N(lit)
        if isinstance(lit, bool):
            if lit != val:
                raise Infeasible()
            return
        if lit.op == "not":
            return self.assume(lit.args[0], not val)
        d = self.decide(lit)
        if d is not None:
            if d != val:
                raise Infeasible()
            if lit not in self.lits:
                self.order.append((lit, val))
            return
        self.order.append((lit, val))
        if lit.op == "ge0":
            t = lit if val else ge0(sub(-1, N(lit.args[0])))
            self.gefacts.append(t.args[0])
            self._tighten()
        elif lit.op == "eq0":
            self.lits[lit] = val
            if val:
                self._union_poly(lit.args[0])
                self.gefacts.append(lit.args[0])
                self.gefacts.append(T(neg(N(lit.args[0]))))
            else:
                # p != 0 with a known sign
                p = N(lit.args[0])
                if self.decide(ge0(p)) is True:
                    self.gefacts.append(T(sub(p, 1)))
                elif self.decide(ge0(neg(p))) is True:
                    self.gefacts.append(T(sub(neg(p), 1)))
        elif lit.op == "eq":
            self.lits[lit] = val
            if val:
                self.union(lit.args[0], lit.args[1])
        elif lit.op == "distinct":
            self.lits[lit] = val
            if val:
                e = lit.args[0]
                for i in range(len(e)):
                    for j in range(i):
                        self.assume(eq(e[i], e[j]), False)
        else:
            self.lits[lit] = val
        self._check_cards()

    def _tighten(self):
        # p >= 0 together with p != 0  ->  p >= 1
        for l, v in list(self.lits.items()):
            if l.op == "eq0" and not v:
                p = N(l.args[0])
                for q in (p, neg(p)):
                    if self.entails_ge(to_poly(self.canon(q)), 1) and \
                            not self.entails_ge(to_poly(self.canon(sub(q, 1))), 1):
                        self.gefacts.append(T(sub(q, 1)))

    def _check_cards(self):
        for ct, elems in self.cards:
            lit = mk("distinct", (elems,), "bool", True)
            if lit in self.lits:
                continue
            if self.decide(ge0(sub(ct, len(elems)))) is True:
                self.assume(lit, True)

    def _union_poly(self, pt):
        p = to_poly(N(pt))
        ms = [m for m in p if m != ()]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and abs(p[ms[0]]) == 1:
            v = -p.get((), 0) // p[ms[0]]
            self.union(ms[0][0][0], T(v))
        elif len(ms) == 2 and () not in p and all(len(m) == 1 and m[0][1] == 1 for m in ms) \
                and {p[ms[0]], p[ms[1]]} == {1, -1}:
            self.union(ms[0][0][0], ms[1][0][0])

    def union(self, a, b):
        a, b = T(self.canon(a)), T(self.canon(b))
        a, b = self.find(a), self.find(b)
        if a is b:
            return
        # prefer constants, then well-known symbols, as representatives
        def rank(t):
            if t.op == "const":
                return (0, t.id)
            if t.op == "sym":
                return (1, t.id)
            return (2, t.id)
        if rank(b) < rank(a):
            a, b = b, a
        if b.op == "const" or (a.op == "const" and cval(a) is None and b.nonnull):
            raise Infeasible()
        if b in atoms(a):
            a, b = b, a
        self.parent[b] = a
        self.version += 1
        self._recheck()

    def _recheck(self):
        for l, v in list(self.lits.items()):
            c = self.canon(l)
            if isinstance(c, bool):
                if c != v:
                    raise Infeasible()
        # congruence of opposite literals
        seen = {}
        for l, v in self.lits.items():
            c = self.canon(l)
            if isinstance(c, Term):
                if c.op == "not":
                    c, v = c.args[0], not v
                if seen.setdefault(c, v) != v:
                    raise Infeasible()
        for p in self.gefacts:
            g = ge0(self.canon(p))
            if g is False:
                raise Infeasible()

    def same(self, a, b):
        """provably equal values?"""
        a, b = self.canon(a), self.canon(b)
        if isinstance(a, Term) or isinstance(b, Term):
            if a is b:
                return True
            return self.decide(eq(a, b)) is True
        return type(a) is type(b) and a == b

    def differ(self, a, b):
        return self.decide(eq(a, b)) is False

    def describe(self):
        return ["%s%s" % ("" if v else "NOT ", show(l)) for l, v in self.order]


def intrinsic_nonneg(a):
    return a.op in NONNEG_OPS or (a.op == "sym" and a.args[0] == "msg.value") or \
        (a.op == "pow" and is_const(a.args[0]) and cval(a.args[0]) > 0) or \
        (a.op == "mod" and is_const(a.args[1]) and cval(a.args[1]) > 0)
