"""Exact comparison of formulas of directions: unit vectors by their polar angles, signs by intervals and path facts."""
import re
from fractions import Fraction
import alg, vn
from front import AnalysisError
from common import *
from c10 import Geo, Fn

PI = 3.14159265358979323846


class Mat(alg.Alg):
    """rational functions with pi, polar coordinates, ranges and function atoms by the value of their arguments"""

    def __init__(self, T, subst=None):
        super().__init__(T, subst=subst)
        self.nonneg, self.bounded, self.inside = set(), set(), {}
        self.pi = self.var("pi")
        self.nonneg.add(self.atom("pi"))
        self.roots = []

    # ---- atoms
    def unit(self, name):
        """the three coordinates of an arbitrary vector of length one"""
        s, c, sp, cp = (self.atom((k, name)) for k in ("sin t", "cos t", "sin p", "cos p"))
        self.pyth[s], self.pyth[sp] = c, cp
        self.nonneg.add(s)
        self.bounded |= {s, c, sp, cp}
        V = lambda *xs: ({tuple(sorted((x, 1) for x in xs)): Fraction(1)}, {})
        return [V(s, cp), V(s, sp), V(c)], V(s)

    def within(self, form, neg=False):
        """a quantity between 0 (or -1) and 1"""
        (m, c), = form[0].items()
        x = m[0][0]
        self.bounded.add(x)
        if not neg:
            self.nonneg.add(x)

    def kids(self, t):
        n = self.T.node[t]
        if t in self.subst:
            return ()
        if n[0] == "call" and len(n) == 3:
            return n[2]
        if n[0] in ("min", "max", "minnum", "maxnum"):
            return n[1:3]
        if n[0] in ("fpext", "fptrunc"):
            return n[1:2]
        return super().kids(t)

    def build(self, t):
        n = self.T.node[t]
        if t in self.subst:
            return self.subst[t]
        m = self.memo
        if n[0] == "c" and isinstance(n[1], float) and n[1]:
            x = n[1]
            for k in (1, 2, 4, 8, .5, .25, .125):
                for v, f in ((k * PI, self.mul(self.num(Fraction(k)), self.pi)), (k / PI, self.div(self.num(Fraction(k)), self.pi))):
                    if abs(abs(x) - v) < 3e-7 * v:
                        return f if x > 0 else self.mul(self.num(-1), f)
            q = Fraction(x).limit_denominator(1000)
            return self.num(q if abs(q - Fraction(x)) < abs(x) / 2**21 else Fraction("%.6g" % x))
        if n[0] in ("min", "max", "minnum", "maxnum"):
            return self.extreme(n[0].startswith("max"), m[n[1]], m[n[2]])
        if n[0] == "call" and len(n) == 3:
            if n[1] in ("fabsf", "fabs", "abs"):
                return self.absolute(m[n[2][0]])
            if n[1] in ("fmaxf", "fmax", "fminf", "fmin"):
                return self.extreme("max" in n[1], m[n[2][0]], m[n[2][1]])
            if n[1] in ("pow", "powf") and self.T.node[n[2][1]][0] == "c" and self.T.node[n[2][1]][1] in (2, 3, 4):
                return super().build(t)
            if n[1] not in ("sqrtf", "sqrt", "sinf", "cosf", "sin", "cos", "tan", "tanf", "fmuladd"):
                return self.func(n[1], [m[x] for x in n[2]])
            r = super().build(t)
            if n[1] in ("sinf", "cosf", "sin", "cos"):
                self.bounded.add(self.atom(next(iter(r[0]))[0][0]) if False else next(iter(r[0]))[0][0])
            return r
        return super().build(t)

    def func(self, name, args):
        name = re.sub(r"^std::|f$", "", name) if name in ("powf", "expf", "logf", "atanf", "std::pow", "std::exp", "std::log", "std::atan") else name
        return self.var(("fn", name) + tuple(self.key(self.reduce(a)) for a in args))

    def extreme(self, big, a, b):
        s = self.range(self.sub(a, b))
        if "-" not in s:
            return a if big else b
        if "+" not in s:
            return b if big else a
        k = sorted([self.key(self.reduce(a)), self.key(self.reduce(b))], key=repr)
        return self.var(("max" if big else "min",) + tuple(k))

    def absolute(self, a):
        s = self.range(a)
        if "-" not in s:
            return a
        if "+" not in s:
            return self.mul(self.num(-1), a)
        a = self.reduce(a)
        if a[0] and a[1]:
            r = self.absolute((a[0], {}))
            for f, e in a[1].items():
                g = self.absolute((self.factors[f], {}))
                for _ in range(e):
                    r = self.div(r, g)
            return r
        if a[0] and len(a[0]) == 1 and not a[1]:
            (mm, c), = a[0].items()
            if len(mm) > 1 or mm[0][1] > 1 or abs(c) != 1:
                # the magnitude of a product
                r = self.num(abs(c))
                for x, e in mm:
                    b = self.absolute(({((x, 1),): Fraction(1)}, {}))
                    for _ in range(e):
                        r = self.mul(r, b)
                return r
        neg = self.mul(self.num(-1), a)
        key = ("abs", min(self.key(a), self.key(neg), key=repr))
        x = self.atom(key)
        self.inside[x] = a
        self.sq[x] = self.mul(a, a)
        self.nonneg.add(x)
        if len(a[0]) == 1 and all(y in self.bounded for mm, c in a[0].items() for y, e in mm) and all(abs(c) <= 1 for c in a[0].values()) and not a[1]:
            self.bounded.add(x)
        return self.var(key)

    def sqrt(self, a):
        a = self.reduce(a)
        k = self.const(a)
        if k is not None and k >= 0:
            from math import isqrt
            p, q = isqrt(k.numerator), isqrt(k.denominator)
            if p * p == k.numerator and q * q == k.denominator:
                return self.num(Fraction(p, q))
        for s, c in self.pyth.items():
            if self.equal(a, self.sub(self.num(1), ({((c, 2),): Fraction(1)}, {}))):
                return self.absolute(({((s, 1),): Fraction(1)}, {}))
        n, d = a
        if len(n) == 1 and (all(self.plain(f) is not None for f in d)):
            (mm, c), = n.items()
            root = self.sqrt_num(c)
            if root is not None and all(e % 2 == 0 for x, e in mm) and all(e % 2 == 0 for e in d.values()):
                r = self.num(root)
                for x, e in mm:
                    for _ in range(e // 2):
                        r = self.mul(r, self.absolute(({((x, 1),): Fraction(1)}, {})))
                for f, e in d.items():
                    for _ in range(e // 2):
                        r = self.div(r, self.absolute((self.factors[f], {})))
                return r
        key = ("sqrt", self.key(a))
        if key not in self.aid:
            # the root of the same quantity written differently
            for k in self.roots:
                if self.zero(self.sub(self.sq[self.aid[k]], a)):
                    return self.var(k)
            self.roots.append(key)
        x = self.atom(key)
        self.sq[x] = a
        self.nonneg.add(x)
        lo, hi = self.interval(a[0]) if not a[1] else (None, None)
        if hi is not None and hi <= 1:
            self.bounded.add(x)
        return self.var(key)

    def sqrt_num(self, k):
        from math import isqrt
        if k < 0:
            return None
        p, q = isqrt(k.numerator), isqrt(k.denominator)
        return Fraction(p, q) if p * p == k.numerator and q * q == k.denominator else None

    def plain(self, f):
        """the atom a factor consists of"""
        q = self.factors[f]
        if len(q) == 1:
            (mm, c), = q.items()
            if len(mm) == 1 and mm[0][1] == 1:
                return mm[0][0]
        return None

    def cancel(self, n, d):
        n, d = super().cancel(n, d)
        for f in list(d):
            x = self.plain(f)
            while x is not None and n and d.get(f) and all(any(y == x for y, e in m) for m in n):
                n = {tuple((y, e - (y == x)) for y, e in m if y != x or e > 1): c for m, c in n.items()}
                d = dict(d)
                d[f] -= 1
                if not d[f]:
                    del d[f]
        return n, d

    def reduce(self, a):
        for _ in range(8):
            n, d = super().reduce(a)
            hit = [f for f, e in d.items() if e >= 2 and self.plain(f) in self.sq]
            if not hit:
                return n, d
            f = hit[0]
            d = dict(d)
            d[f] -= 2
            if not d[f]:
                del d[f]
            a = self.div((n, d), self.sq[self.plain(f)])
        return a

    # ---- ranges
    def interval(self, p):
        lo = hi = Fraction(0)
        for m, c in p.items():
            even = all(x in self.nonneg or e % 2 == 0 for x, e in m)
            small = all(x in self.bounded for x, e in m)
            a, b = (0, 1) if even and small else (-1, 1) if small else (0, None) if even else (None, None)
            if not m:
                a = b = 1
            if c < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + c * a
            hi = None if hi is None or b is None else hi + c * b
        return lo, hi

    def range(self, a):
        """signs the form can have"""
        a = self.reduce(a)
        flip = 1
        for f, e in a[1].items():
            if e % 2 == 0:
                continue
            lo, hi = self.interval(self.factors[f])
            if lo is not None and lo >= 0:
                continue
            if hi is not None and hi <= 0:
                flip = -flip
                continue
            return set("-0+") if a[0] else {"0"}
        lo, hi = self.interval(a[0])
        r = set("-0+")
        if lo is not None and lo >= 0:
            r.discard("-")
            if lo > 0:
                r.discard("0")
        if hi is not None and hi <= 0:
            r.discard("+")
            if hi < 0:
                r.discard("0")
        return r if flip > 0 else {{"-": "+", "+": "-", "0": "0"}[x] for x in r}


class Dir(Geo):
    """value numbering over directions: what virtual calls are given is recorded by value"""
    SNAP = ("value", "pdf", "D", "G", "G1", "eval", "map", "refract", "sample_wh", "sample_value", "isinf", "reflect", "gen_shading_matrix", "is_visible")

    def __init__(self, prog, f, cfg, types, **kw):
        super().__init__(prog, f, cfg, types, **kw)
        self.A = Mat(self.T)
        self.hooks.append(self.snap)
        self.preset, self.given, self.index = {}, {}, None

    # what is fixed in the configuration that is analysed
    def load(self, st, root, off, vars, size):
        r = super().load(st, root, off, vars, size)
        n = self.T.node[r]
        if self.preset and n[0] == "mem" and (n[1], n[2], n[4]) in self.preset and not n[3]:
            return self.T.const(self.preset[n[1], n[2], n[4]])
        return r

    def op(self, st, o):
        if o[0] == "a" and o[1] in self.given:
            return self.T.const(self.given[o[1]])
        return super().op(st, o)

    def step(self, st, i):
        if i.op in ("fptosi", "fptoui") and self.index is not None:
            x = self.op(st, i.ops[0])
            if self.num(x) is None:
                st.events.append(("index", x))
                return self.T.const(self.index)
        return super().step(st, i)

    def forms(self, st, t, kind, ins=None):
        r, off, vs = self.ptr(t)
        return [self.load(st, r, off + 4 * k, vs, 4) for k in range(3)]

    def snap(self, st, i):
        name = i.callee or (i.d["virt"]["targets"][0][0] if "virt" in i.d and i.d["virt"]["targets"] else "")
        m = re.match(r"^(?:\w+::)*(~?\w+)\((.*)\)( const)?$", name.replace(" (.irclone)", ""))
        if not m or m.group(1) not in self.SNAP:
            return None
        T = self.T
        what, ps = m.group(1), [x.strip() for x in m.group(2).split(",") if x.strip()]
        args = [self.op(st, o) for o in i.ops]
        member = "::" in name.split("(")[0] and len(args) > len(ps)
        flat, outs, k = [], [], 0
        if "::" in name.split("(")[0]:
            flat.append(args[0])
            k = 1
        vals = {}
        for j, p in enumerate(ps):
            if k >= len(args):
                break
            if re.match(r"(Vec3|Normal|Point3) const[*&]", p):
                flat += self.forms(st, args[k], p)
            elif p in ("Vec3*", "float*", "bool*"):
                outs.append((p, args[k]))
            else:
                flat.append(args[k])
            k += 1
        flat = tuple(flat)
        for p, a in outs:
            r, off, vs = self.ptr(a)
            if p == "Vec3*":
                for c in range(3):
                    self.store(st, r, off + 4 * c, vs, 4, T.mk("call", "@%s.wi%d" % (what, c), flat))
            else:
                self.store(st, r, off, vs, 4 if p == "float*" else 1, T.mk("call", "@%s.%s" % (what, p[:-1]), flat))
        st.events.append(("@", i, what, flat))
        if i.ty == "void":
            return (None,)
        if i.ty in ("float", "double", "i1", "i32"):
            return (T.mk("call", "@" + what, flat),)
        c = [T.mk("call", "@%s.%d" % (what, k), flat) for k in range(3)]
        return (T.mk("agg", (((0,), T.mk("vec", *c[:2])), ((1,), c[2]))),)

    def decide(self, st, t):
        r = super().decide(st, t)
        if r is not None:
            return r
        b, pos = self.cond(t)
        n = self.T.node[b]
        if n[0] == "eq":
            x, y = self.T.node[n[1]], self.T.node[n[2]]
            if x[0] == y[0] == "ptr" and x[1] == y[1] and x[3] == y[3]:
                return (x[2] == y[2]) == pos
        if n[0] in ("lt", "eq"):
            key = ("r", b)
            if key not in self.dmemo:
                self.dmemo[key] = None
                try:
                    s = self.A.range(self.A.sub(self.A.of(n[2]), self.A.of(n[1])))
                    if n[0] == "lt":
                        self.dmemo[key] = True if s == {"+"} else False if "+" not in s else None
                    else:
                        self.dmemo[key] = True if s == {"0"} else False if "0" not in s else None
                except (AnalysisError, ZeroDivisionError):
                    pass
            if self.dmemo[key] is not None:
                return self.dmemo[key] == pos
        return None


class Case:
    """one path of a function, with the signs its conditions establish"""

    def __init__(self, F, q):
        self.F, self.q, self.A, self.T = F, q, F.v.A, F.T
        self.rel = []
        A = self.A
        for t, b in q.facts.items():
            n = self.T.node[t]
            if n[0] in ("lt", "eq"):
                try:
                    d = A.reduce(A.sub(A.of(n[2]), A.of(n[1])))
                except (AnalysisError, ZeroDivisionError):
                    continue
                self.rel.append((d, n[0], b))
                if n[0] == "eq":
                    self.zero(d, b)
                elif d[1]:
                    # a positive denominator does not change the sign
                    if all(e % 2 == 0 or "-" not in A.range((A.factors[f], {})) for f, e in d[1].items()):
                        self.rel.append(((d[0], {}), "lt", b))
                if n[0] == "lt" and A.range(d) <= {"0", "+"}:
                    self.zero(d, not b)
        self.signs = {}

    def zero(self, d, b):
        """the form is zero (or not)"""
        A = self.A
        if d[1]:
            self.rel.append(((d[0], {}), "eq", b))
        if len(d[0]) == 1:
            (m, c), = d[0].items()
            if len(m) == 1:
                x = m[0][0]
                self.rel.append((({((x, 1),): Fraction(1)}, {}), "eq", b))
                if x in A.inside:
                    self.rel.append((A.inside[x], "eq", b))

    def sign(self, *forms):
        A = self.A
        s = set("-0+")
        for f in forms:
            f = A.reduce(f)
            s &= A.range(f)
            for d, k, b in self.rel:
                r = self.ratio(d, f)
                if r is None:
                    continue
                if k == "eq":
                    s &= {"0"} if b else {"-", "+"}
                else:
                    s &= ({"+"} if b else {"-", "0"}) if r > 0 else ({"-"} if b else {"+", "0"})
            if len(f[0]) == 1 and not f[1]:
                (m, c), = f[0].items()
                if len(m) > 1:
                    t = {1 if c > 0 else -1}
                    num = {"+": 1, "-": -1, "0": 0}
                    for x, e in m:
                        g = {num[y] for y in self.sign(({((x, 1),): Fraction(1)}, {}))}
                        for _ in range(e if e < 3 else 2 + e % 2):
                            t = {u * w for u in t for w in g} if _ == 0 else {u * w for u in t for w in g if u * w or 0 in g}
                    s &= {"+" if x > 0 else "-" if x < 0 else "0" for x in t}
        return s

    def ratio(self, d, f):
        """the constant d/f is, if it is one"""
        A = self.A
        if not f[0] or not d[0]:
            return None
        try:
            return A.const(A.div(d, f)) or None
        except (AnalysisError, ZeroDivisionError):
            return None

    def known(self, a):
        """with magnitudes replaced where the sign is known on this path"""
        A = self.A
        for _ in range(3):
            n, d = a
            hit = None
            for p in [n] + [A.factors[f] for f in d]:
                for m in p:
                    for x, e in m:
                        if x in A.inside and hit is None:
                            if x not in self.signs:
                                self.signs[x] = self.sign(A.inside[x])
                            s = self.signs[x]
                            if "-" not in s:
                                hit = (x, A.inside[x])
                            elif "+" not in s:
                                hit = (x, A.mul(A.num(-1), A.inside[x]))
            if hit is None:
                return a
            a = self.replace(a, *hit)
        return a

    def replace(self, a, x, form):
        A = self.A

        def poly(p):
            r = A.num(0)
            for m, c in p.items():
                t = ({tuple(y for y in m if y[0] != x): c}, {})
                for _ in range(dict(m).get(x, 0)):
                    t = A.mul(t, form)
                r = A.add(r, t)
            return r
        n = poly(a[0])
        for f, e in a[1].items():
            g = poly(A.factors[f])
            for _ in range(e):
                n = A.div(n, g)
        return n

    def same(self, got, want):
        """terms equal forms"""
        A = self.A
        if len(got) != len(want):
            return False
        for g, w in zip(got, want):
            try:
                d = A.sub(A.of(g) if isinstance(g, int) else g, w)
                if A.zero(d):
                    continue
                if A.zero(self.known(A.reduce(d))):
                    continue
            except ZeroDivisionError:
                pass
            return False
        return True
