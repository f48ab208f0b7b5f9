"""Algebraic normal form of value-number terms: rational functions over the program's own quantities (real arithmetic),
with square roots, absolute values and trigonometric calls as atoms (sqrt(x)^2 = x, sin^2+cos^2 = 1).  Two expressions
written differently but equal as functions get equal normal forms; no solver, no sampling."""
from fractions import Fraction
from front import AnalysisError

ONE = {(): Fraction(1)}
MAXTERMS = 60000


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) * len(q) > 4000000:
        raise AnalysisError("polynomial too large")
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > MAXTERMS:
        raise AnalysisError("polynomial too large")
    return r


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


class Alg:
    """rational functions (num, {factor id: exponent}) over atoms"""

    def __init__(self, T, nice=True, subst=None):
        self.T, self.memo = T, {}
        self.factors, self.fid = [], {}
        self.atoms, self.aid = [], {}
        self.sq = {}             # atom -> rational function equal to its square
        self.pyth = {}           # sin atom -> cos atom
        self.subst = subst or {}

    # ---- atoms and factors
    def atom(self, key):
        if key not in self.aid:
            self.aid[key] = len(self.atoms)
            self.atoms.append(key)
        return self.aid[key]

    def var(self, key):
        return ({((self.atom(key), 1),): Fraction(1)}, {})

    def num(self, k):
        k = Fraction(k)
        return ({(): k} if k else {}, {})

    def factor(self, p):
        """polynomial -> (scalar, factor id or None)"""
        m0 = min(p)
        k = p[m0]
        if len(p) == 1 and m0 == ():
            return k, None
        q = pscale(p, 1 / k)
        key = frozenset(q.items())
        if key not in self.fid:
            self.fid[key] = len(self.factors)
            self.factors.append(q)
        return k, self.fid[key]

    def fpow(self, i, e):
        r = ONE
        for _ in range(e):
            r = pmul(r, self.factors[i])
        return r

    # ---- arithmetic
    def add(self, a, b, k=1):
        (n, d), (m, e) = a, b
        if d == e:
            return padd(n, m, k), d
        l = {f: max(d.get(f, 0), e.get(f, 0)) for f in set(d) | set(e)}
        for f, x in l.items():
            if x > d.get(f, 0):
                n = pmul(n, self.fpow(f, x - d.get(f, 0)))
            if x > e.get(f, 0):
                m = pmul(m, self.fpow(f, x - e.get(f, 0)))
        return padd(n, m, k), l

    def sub(self, a, b):
        return self.add(a, b, -1)

    def mul(self, a, b):
        d = dict(a[1])
        for f, e in b[1].items():
            d[f] = d.get(f, 0) + e
        return self.cancel(pmul(a[0], b[0]), d)

    def cancel(self, n, d):
        # a numerator that is itself one of the denominators' factors cancels
        if n and d:
            k, f = self.factor(n)
            if f is not None and d.get(f):
                d = dict(d)
                d[f] -= 1
                if not d[f]:
                    del d[f]
                return {(): k}, d
        return n, d

    def inv(self, a):
        n, d = a
        if not n:
            raise ZeroDivisionError
        r = ONE
        for f, e in d.items():
            r = pmul(r, self.fpow(f, e))
        if len(n) == 1:
            # monomial denominators are kept factor by factor
            (m, c), = n.items()
            dd = {}
            for x, e in m:
                _, f = self.factor({((x, 1),): Fraction(1)})
                dd[f] = dd.get(f, 0) + e
            return self.cancel(pscale(r, 1 / c), dd)
        k, f = self.factor(n)
        if f is None:
            return pscale(r, 1 / k), {}
        return self.cancel(pscale(r, 1 / k), {f: 1})

    def div(self, a, b):
        return self.mul(a, self.inv(b))

    # ---- reduction of known squares
    def reduce(self, a):
        n, d = a
        out = (n, d)
        for _ in range(12):
            n, d = out
            hit = None
            for m in n:
                for x, e in m:
                    if e >= 2 and (x in self.sq or x in self.pyth):
                        hit = x
                        break
                if hit is not None:
                    break
            if hit is None:
                return out
            rest, acc = {}, None
            groups = {}
            for m, c in n.items():
                e = dict(m).get(hit, 0)
                if e >= 2:
                    mm = tuple((x, y if x != hit else e % 2) for x, y in m if x != hit or e % 2)
                    groups.setdefault(e // 2, {})[mm] = groups.get(e // 2, {}).get(mm, 0) + c
                else:
                    rest[m] = rest.get(m, 0) + c
            sq = self.sq[hit] if hit in self.sq else self.add(self.num(1), ({((self.pyth[hit], 2),): Fraction(1)}, {}), -1)
            acc = (rest, {})
            for k, g in groups.items():
                t = ({m: c for m, c in g.items() if c}, {})
                for _ in range(k):
                    t = self.mul(t, sq)
                acc = self.add(acc, t)
            dd = dict(d)
            for f, e in acc[1].items():
                dd[f] = dd.get(f, 0) + e
            out = (acc[0], dd)
        return out

    def zero(self, a):
        return not self.reduce(a)[0]

    def const(self, a):
        """the number this form is everywhere, if it is one"""
        n, d = self.reduce(a)
        if not n:
            return Fraction(0)
        r = ONE
        for f, e in d.items():
            r = pmul(r, self.fpow(f, e))
        m = next(iter(n))
        if m not in r:
            n, r = self.reduce((n, {}))[0], self.reduce((r, {}))[0]
            m = next(iter(n))
        if m not in r:
            return None
        k = Fraction(n[m]) / r[m]
        return k if not self.reduce((padd(n, r, -k), {}))[0] else None

    def equal(self, a, b):
        return self.zero(self.sub(a, b))

    # ---- terms
    def of(self, t):
        if t in self.memo:
            return self.memo[t]
        stack = [t]
        while stack:
            x = stack[-1]
            if x in self.memo:
                stack.pop()
                continue
            kids = self.kids(x)
            miss = [k for k in kids if k not in self.memo]
            if miss:
                stack += miss
                continue
            self.memo[x] = self.build(x)
            stack.pop()
        return self.memo[t]

    def kids(self, t):
        n = self.T.node[t]
        if t in self.subst:
            return ()
        if n[0] in ("fadd", "fsub", "fmul", "fdiv", "add", "sub", "mul"):
            return n[1:3]
        if n[0] == "fneg":
            return n[1:2]
        if n[0] == "call" and len(n) == 3 and n[1] in ("sqrtf", "sqrt", "fabsf", "fabs", "sinf", "cosf", "sin", "cos", "abs", "fmuladd", "pow", "powf", "tanf", "tan"):
            return n[2]
        return ()

    def build(self, t):
        n = self.T.node[t]
        if t in self.subst:
            return self.subst[t]
        k = n[0]
        m = self.memo
        if k == "c" and not isinstance(n[1], str):
            return self.num(n[1])
        if k in ("fadd", "add"):
            return self.add(m[n[1]], m[n[2]])
        if k in ("fsub", "sub"):
            return self.sub(m[n[1]], m[n[2]])
        if k in ("fmul", "mul"):
            return self.mul(m[n[1]], m[n[2]])
        if k == "fneg":
            return self.mul(self.num(-1), m[n[1]])
        if k == "fdiv":
            if not m[n[2]][0]:
                return self.var(("t", t))
            return self.div(m[n[1]], m[n[2]])
        if k == "call" and len(n) == 3:
            if n[1] in ("sqrtf", "sqrt"):
                return self.sqrt(m[n[2][0]])
            if n[1] in ("fabsf", "fabs", "abs"):
                v = self.var(("abs", self.key(m[n[2][0]])))
                self.sq[self.atom(("abs", self.key(m[n[2][0]])))] = self.mul(m[n[2][0]], m[n[2][0]])
                return v
            if n[1] in ("sinf", "cosf", "sin", "cos"):
                a = self.key(m[n[2][0]])
                s, c = self.atom(("sin", a)), self.atom(("cos", a))
                self.pyth[s] = c
                return self.var(("sin" if n[1][0] == "s" else "cos", a))
            if n[1] in ("tan", "tanf"):
                a = self.key(m[n[2][0]])
                self.pyth[self.atom(("sin", a))] = self.atom(("cos", a))
                return self.div(self.var(("sin", a)), self.var(("cos", a)))
            if n[1] in ("pow", "powf") and self.T.node[n[2][1]][0] == "c" and self.T.node[n[2][1]][1] in (2, 3, 4):
                r = self.num(1)
                for _ in range(self.T.node[n[2][1]][1]):
                    r = self.mul(r, m[n[2][0]])
                return r
            if n[1] == "fmuladd":
                return self.add(self.mul(m[n[2][0]], m[n[2][1]]), m[n[2][2]])
        return self.var(("t", t))

    def sqrt(self, a):
        key = ("sqrt", self.key(self.reduce(a)))
        x = self.atom(key)
        self.sq[x] = a
        return self.var(key)

    def key(self, a):
        n, d = a
        return (frozenset(n.items()), frozenset(d.items()))

    def show(self, a):
        def pol(p):
            out = []
            for m, c in list(p.items())[:6]:
                out.append("%s%s" % (c if c != 1 or not m else "", "*".join("%s%s" % (self.name(x), "^%d" % e if e > 1 else "") for x, e in m)))
            return " + ".join(out) + (" + ..." if len(p) > 6 else "") or "0"
        s = pol(a[0])
        if a[1]:
            s = "(%s)/(%s)" % (s, ")(".join(pol(self.factors[f]) for f in a[1]))
        return s[:300]

    def name(self, x):
        k = self.atoms[x]
        if k[0] == "t":
            return self.T.show(k[1])[:40]
        return k[0] if k[0] != "v" else str(k[1])
