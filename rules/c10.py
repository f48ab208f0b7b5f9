"""Value numbering over the matrix, vector and camera code, with the results compared as rational functions of the inputs
(square roots, sines and cosines as atoms with their own laws).  The cameras are analysed end to end: constructor and ray
generation together, for every resolution, position and sample, against the documented map from raster space to rays; the
camera frame is replaced by an arbitrary rotation where a length is compared.  Matrix and vector members are decided
against the operation they are named after on every path, so special cases (a vector already of unit length, a point whose
w is one, total internal reflection) must agree with the general formula."""
import re
from fractions import Fraction
import front, ir, flow, vn, alg
from front import AnalysisError
from common import *
from c08 import params, const_effects
from c09 import V3, layout

LEVEL = "other"
ASSUMES = ["rounding is not modelled: values are compared as real functions; the tolerance within which a vector counts as already normalised is taken as no difference",
           "the objects handed to a member do not overlap (m *= m, v.cross(w, &v) are not followed)",
           "the field of view and the two image sides are positive, the target differs from the position and the up vector is not parallel to the view",
           "comparisons are made on numbers (no NaN)"]
UNIT = re.compile(r"^(normalize\((Vec2|Vec3|Normal) const&\)|(Vec2|Vec3|Normal)::normalize\(\))")
POINTS = ("Vec2", "Vec3", "Normal", "Point2", "Point3")


class Geo(vn.VN):
    """value numbering that decides comparisons of numbers by their algebra and knows what normalising is"""

    def __init__(self, prog, f, cfg, types, **kw):
        super().__init__(f, effects=const_effects(prog), **kw)
        self.A = alg.Alg(self.T)
        self.types = types
        self.dmemo = {}
        self.hooks = []
        self.invertible = False     # a determinant that depends on the inputs is not next to zero

    def decide(self, st, t):
        r = super().decide(st, t)
        if r is not None:
            return r
        b, pos = self.cond(t)
        n = self.T.node[b]
        if n[0] in ("lt", "eq"):
            k = self.num(n[1])
            if self.invertible and n[0] == "eq" and b not in self.dmemo:
                z = [x for x in n[1:] if self.num(x) == 0]
                x = [x for x in n[1:] if self.num(x) is None]
                if len(z) == 1 and len(x) == 1 and self.A.const(self.A.of(x[0])) is None:
                    self.dmemo[b] = False
            if self.invertible and n[0] == "lt" and k is not None and 0 <= k <= 1e-5 and self.T.node[n[2]][0] == "call" and self.T.node[n[2]][1].startswith("fabs") and self.num(n[2]) is None:
                st.events.append(("invertible", n[2]))
                return pos
            if b not in self.dmemo:
                self.dmemo[b] = None
                try:
                    k = self.A.const(self.A.sub(self.A.of(n[1]), self.A.of(n[2])))
                    if k is not None:
                        self.dmemo[b] = k < 0 if n[0] == "lt" else k == 0
                except (AnalysisError, ZeroDivisionError):
                    pass
            if self.dmemo[b] is not None:
                return self.dmemo[b] == pos
        return None

    def unit(self, xs):
        T = self.T
        s = None
        for x in xs:
            y = T.mk("fmul", x, x)
            s = y if s is None else T.mk("fadd", s, y)
        r = T.mk("call", "sqrtf", (s,))
        return [T.mk("fdiv", x, r) for x in xs]

    def call(self, st, i):
        T = self.T
        for h in self.hooks:
            r = h(st, i)
            if r is not None:
                return r[0]
        if i.callee and UNIT.match(i.callee):
            n = 2 if "Vec2" in i.callee else 3
            a = self.op(st, i.ops[-1])
            r, off, vs = self.ptr(a)
            u = self.unit([self.load(st, r, off + 4 * k, vs, 4) for k in range(n)])
            if "::" in i.callee:
                for k in range(n):
                    self.store(st, r, off + 4 * k, vs, 4, u[k])
                return a if i.ty == "ptr" else None
            return T.mk("agg", (((0,), T.mk("vec", *u[:2])), ((1,), u[2]))) if n == 3 else T.mk("vec", *u)
        return super().call(st, i)


class Fn:
    """a function with its parameters and results as components"""

    def __init__(self, prog, p, f, cfg, **kw):
        self.f, self.p = f, p
        self.v = Geo(prog, f, cfg, p.types, **kw)
        self.A, self.T = self.v.A, self.v.T
        self.dit = [re.sub(r"\bconst\b|\s", "", x) for x in f.d["ditypes"]]
        self.sret = any(a.get("sret") for a in f.d["args"])
        self.par, k = [], 1 if self.sret else 0
        for t in self.dit[1:]:
            if t in ("Vec3", "Normal", "Point3") and f.d["args"][k]["ty"].startswith("<2"):
                self.par.append((t, "val", k))
                k += 2
            else:
                self.par.append((t, "val" if f.d["args"][k]["ty"] != "ptr" else "ptr", k))
                k += 1

    def size(self, t):
        t = t.rstrip("*&")
        return 16 if t == "Matrix4" else 2 if t in ("Vec2", "Point2") else 3 if t in ("Vec3", "Normal", "Point3") else 1

    def arg(self, j, n=None):
        """terms of the components of parameter j"""
        t, how, k = self.par[j]
        T = self.T
        n = n or self.size(t)
        if how == "ptr":
            return [T.mk("mem", ("arg", k), 4 * c, (), 4, 0) for c in range(n)]
        if t in ("Vec2", "Point2", "Vec3", "Normal", "Point3"):
            x = T.mk("in", k)
            return [T.mk("el", x, T.const(c)) for c in range(2)] + ([T.mk("in", k + 1)] if n == 3 else [])
        return [T.mk("in", k)]

    def A_(self, xs):
        return [self.A.of(x) for x in xs]

    def inp(self, j, n=None):
        return self.A_(self.arg(j, n))

    def result(self, q):
        """terms of what is returned"""
        T, t = self.T, self.dit[0]
        if self.sret:
            return [q.cell(("arg", 0), 4 * c) for c in range(self.size(t) if t != "Ray" else 6)]
        if t in ("Vec3", "Normal", "Point3"):
            n = T.node[q.ret]
            d = dict(n[1]) if n[0] == "agg" else {}
            xy = d.get((0,))
            if xy is None:
                raise AnalysisError("what %s returns" % self.f.name)
            return self.pair(xy) + [d[(1,)]]
        if t in ("Vec2", "Point2"):
            return self.pair(q.ret)
        return [q.ret]

    def pair(self, x):
        m = self.T.node[x]
        return list(m[1:]) if m[0] == "vec" else [x, x] if m[0] == "c" else [self.T.mk("el", x, self.T.const(c)) for c in range(2)]

    def out(self, j, q, n=None):
        """terms of what parameter j points at when the function returns"""
        t, how, k = self.par[j]
        return [q.cell(("arg", k), 4 * c) for c in range(n or self.size(t))]

    def paths(self):
        return [q for q in self.v.segments() if q.kind == "ret"]

    def same(self, got, want):
        return len(got) == len(want) and all(self.A.equal(self.A.of(g), w) for g, w in zip(got, want))


def run(ctx):
    for cfg in ([front.RGB] if ctx.tier == "quick" else [front.RGB, front.FULL]):
        prog = program(cfg)
        matrices(ctx, prog, cfg)
        vectors(ctx, prog, cfg)
    prog = program(front.RGB)
    lookat(ctx, prog, front.RGB)
    cameras(ctx, prog)
    placement(ctx, prog)
    ctx.at_least("placement", 4)
    ctx.at_least("matrix", 35)
    ctx.at_least("vector", 60)
    ctx.at_least("camera", 8)


# ------------------------------------------------------------------------------------------------- matrices
def mat(A, rows):
    return [x if isinstance(x, tuple) else A.num(x) for r in rows for x in r]


def matmul(A, a, b, n=4):
    out = []
    for r in range(n):
        for c in range(n):
            s = A.num(0)
            for k in range(n):
                s = A.add(s, A.mul(a[n * r + k], b[n * k + c]))
            out.append(s)
    return out


def trig(A, form):
    k = A.key(form)
    s, c = A.atom(("sin", k)), A.atom(("cos", k))
    A.pyth[s] = c
    return A.var(("sin", k)), A.var(("cos", k))


def matrices(ctx, prog, cfg):
    p, fs = flat(r"^Matrix4::(Matrix4|to_array|set_[A-Za-z_]+|transpose|inverse|get_[A-Za-z_]+|operator.*)\(|^transform_[a-z]+\(|^(sum|sub|mul)\(Matrix4", cfg=cfg, keep=[UNIT.pattern])
    lay = layout(p, "Matrix4")
    ctx.need([lay["m%d%d" % (r, c)][2] for r in range(4) for c in range(4)] == list(range(0, 64, 4)), "the sixteen members of Matrix4 in row order")
    for f in fs:
        name = re.sub(r"\(.*", "", f.name).replace("Matrix4::", "")
        if name == "set_lookAt_inverse":
            continue
        F = Fn(prog, p, f, cfg)
        A, T, v = F.A, F.T, F.v
        ctx.count("functions")
        ptypes = [x[0] for x in F.par]
        key = re.sub(r"\(\.irclone\)| const$", "", f.name).strip()

        def ob(ok, q, why):
            ctx.ob("matrix", key, ok, q.where(), why)
        I = [[1 if r == c else 0 for c in range(4)] for r in range(4)]
        for q in F.paths():
            ctx.count("paths")
            if name == "Matrix4" and ptypes[1:] == ["float*"]:
                ob(F.same(F.out(0, q), F.inp(1, 16)), q, "the matrix is not made of the sixteen numbers given")
            elif name == "to_array":
                ob(F.same(F.out(1, q, 16), F.inp(0)), q, "the array is not the sixteen members in row order")
            elif name == "set_zero":
                ob(F.same(F.out(0, q), [A.num(0)] * 16), q, "not the zero matrix")
            elif name == "set_identity":
                ob(F.same(F.out(0, q), mat(A, I)), q, "not the identity matrix")
            elif name in ("set_translation", "set_scale", "set_rotate_x", "set_rotate_y", "set_rotate_z"):
                x = F.inp(1)
                if name == "set_translation":
                    m = identity(A, {4 * k + 3: x[k] for k in range(3)})
                elif name == "set_scale":
                    m = identity(A, {5 * k: x[k if len(x) == 3 else 0] for k in range(3)})
                else:
                    m = rotation(A, name[-1], x[0])
                ob(F.same(F.out(0, q), m), q, "not the matrix of this transformation")
            elif name == "transpose":
                M = F.inp(0)
                ob(F.same(F.out(1, q), [M[4 * c + r] for r in range(4) for c in range(4)]), q, "not the transposed matrix")
            elif name == "inverse":
                r = v.decide(q.st, q.ret)
                if r:
                    M, N = F.inp(0), F.A_(F.out(1, q))
                    pr = matmul(A, M, N)
                    ob(all(A.equal(a, b) for a, b in zip(pr, mat(A, I))), q, "the product with the matrix is not the identity")
                else:
                    # only a vanishing determinant may be refused
                    small = False
                    M = F.inp(0)
                    det = determinant(A, M)
                    for t, b in q.facts.items():
                        n = T.node[t]
                        if n[0] == "lt" and not b and v.num(n[1]) is not None and 0 <= v.num(n[1]) <= 1e-30:
                            e = A.of(n[2])
                            small |= A.equal(A.mul(e, e), A.mul(det, det))
                        if n[0] == "eq" and b:
                            small |= any(A.equal(A.sub(A.of(n[1]), A.of(n[2])), x) for x in (det, A.mul(A.num(-1), det)))
                    ob(r is False and small, q, "the inversion is refused although the determinant is not known to be zero")
                    ob(not q.stored(("arg", F.par[1][2])), q, "a refused inversion leaves something in the output")
            elif name == "get_translation":
                M = F.inp(0)
                ob(F.same(F.result(q), [M[3], M[7], M[11]]), q, "not the translation column")
            elif name == "get_scale":
                M = F.inp(0)
                g = F.A_(F.result(q))
                ok = all(A.equal(A.mul(g[c], g[c]), A.add(A.add(A.mul(M[c], M[c]), A.mul(M[4 + c], M[4 + c])), A.mul(M[8 + c], M[8 + c]))) for c in range(3))
                ob(ok and all(v.T.node[t][0] == "call" and v.T.node[t][1].startswith("sqrt") for t in F.result(q)), q, "not the lengths of the columns")
            elif re.match(r"operator([-+*])=?$", name) and ptypes[1] == "Matrix4&" or name in ("sum", "sub", "mul"):
                op = {"sum": "+", "sub": "-", "mul": "*"}.get(name) or name[8]
                a, b = F.inp(0), F.inp(1)
                want = matmul(A, a, b) if op == "*" else [A.add(x, y, 1 if op == "+" else -1) for x, y in zip(a, b)]
                got = F.out(2, q) if name in ("sum", "sub", "mul") else F.out(0, q) if name.endswith("=") else F.result(q)
                ob(F.same(got, want), q, "not the %s of the two matrices" % {"+": "sum", "-": "difference", "*": "product"}[op])
            elif name in ("operator==", "operator!="):
                ctx.ob("matrix", key, *comparison(F, q, 16, name == "operator=="))
            elif name == "operator*" and ptypes[1] in ("Point3&", "Vec3&", "Ray&"):
                M = F.inp(0)
                kinds = ["Point3", "Vec3"] if ptypes[1] == "Ray&" else [ptypes[1][:-1]]
                x = F.inp(1, 3 * len(kinds))
                got = F.result(q)
                ok = True
                for h, kind in enumerate(kinds):
                    ok = ok and transformed(F, q, M, x[3 * h:3 * h + 3], got[3 * h:3 * h + 3], kind == "Point3")
                ob(ok, q, "not the image under the matrix")
            elif name == "transform_normal":
                n, M = F.inp(0), F.inp(1, 16)
                want = [A.add(A.add(A.mul(M[c], n[0]), A.mul(M[4 + c], n[1])), A.mul(M[8 + c], n[2])) for c in range(3)]
                ob(F.same(F.result(q), want), q, "not the image under the transposed matrix")


def determinant(A, M):
    def minor(rows, cols):
        if len(rows) == 1:
            return M[4 * rows[0] + cols[0]]
        s = A.num(0)
        for k, c in enumerate(cols):
            t = A.mul(M[4 * rows[0] + c], minor(rows[1:], cols[:k] + cols[k + 1:]))
            s = A.add(s, t, -1 if k & 1 else 1)
        return s
    return minor([0, 1, 2, 3], [0, 1, 2, 3])


def transformed(F, q, M, x, got, point):
    A = F.A

    def row(r):
        s = M[4 * r + 3] if point else A.num(0)
        for c in range(3):
            s = A.add(s, A.mul(M[4 * r + c], x[c]))
        return s
    want = [row(r) for r in range(3)]
    if not point:
        return F.same(got, want)
    w = row(3)
    if F.same(got, [A.div(y, w) for y in want]):
        return True
    # the division may only be left out when w is one
    one = False
    for t, b in q.facts.items():
        n = F.T.node[t]
        if n[0] == "eq" and b:
            e = A.sub(A.of(n[1]), A.of(n[2]))
            one |= any(A.equal(e, z) for z in (A.sub(w, A.num(1)), A.sub(A.num(1), w)))
    return one and F.same(got, want)


def comparison(F, q, n, eq):
    """(ok, where, why): equal exactly when no pair of components differs by more than a tiny constant"""
    v, T, A = F.v, F.T, F.A
    a, b = F.inp(0, n), F.inp(1, n)
    why = "the answer does not agree with the components' differences"
    for val in (True, False):
        st = q.st.copy()
        r = v.decide(st, q.ret)
        if r is not None and r != val:
            continue
        if r is None:
            v.learn(st, q.ret, val)
        near, far = set(), False
        for t, f in st.facts.items():
            m = T.node[t]
            if m[0] == "lt":
                k = v.num(m[1])
                if k is not None and 0 <= k <= 1e-4:          # k < |difference|
                    e = A.of(m[2])
                    for j in range(n):
                        d = A.sub(a[j], b[j])
                        if A.equal(A.mul(e, e), A.mul(d, d)) and T.node[m[2]][0] == "call":
                            if f:
                                far = True
                            else:
                                near.add(j)
            elif m[0] == "eq":
                e = A.sub(A.of(m[1]), A.of(m[2]))
                for j in range(n):
                    d = A.sub(a[j], b[j])
                    if A.equal(e, d) or A.equal(e, A.mul(A.num(-1), d)):
                        if f:
                            near.add(j)
                        else:
                            far = True
        same = val == eq
        if same and len(near) < n or not same and not far:
            return False, q.where(), why
    return True, q.where(), ""


# -------------------------------------------------------------------------------------------------- vectors
def vectors(ctx, prog, cfg):
    cls = "|".join(POINTS)
    p, fs = flat(r"^(%s)::|^Ray::|^(dot|absdot|cross|normalize|distance|clamp|saturate|max|min|reflect|refract)\((%s|float|int)|^AABB::(center|surface|volume|longest_axis)\(" % (cls, cls), cfg=cfg)
    for c, n in (("Vec2", 2), ("Vec3", 3), ("Normal", 3), ("Point2", 2), ("Point3", 3)):
        ctx.need([layout(p, c)[x][2] for x in "xyz"[:n]] == [0, 4, 8][:n], "the coordinates of " + c)
    for f in fs:
        m = re.match(r"^(?:(\w+)::)?(~?\w+|operator\S+?)\(", f.name)
        if not m:
            continue
        c, name = m.group(1), m.group(2)
        if name.startswith("to_string") or name.startswith("~"):
            continue
        if any("UnusedType" in x for x in f.d["ditypes"]):
            continue
        F = Fn(prog, p, f, cfg)
        key = re.sub(r"\(\.irclone\)| const$", "", f.name).strip()
        done = False
        for q in F.paths():
            ctx.count("paths")
            r = member(F, q, c, name)
            if r is None:
                continue
            done = True
            ctx.ob("vector", key, r[0], q.where(), r[1])
        ctx.count("functions" if done else "skipped")


def bounded(F, q, x, lo, hi, got):
    """got is x restricted to lo..hi on this path"""
    v = F.v

    def num(t):
        return v.num(t)
    if got == x:
        return q.ge(x, lo) and q.ge(hi, x)
    return got == lo and (q.ge(lo, x)) or got == hi and q.ge(x, hi)


def extremum(F, q, a, b, got, sign):
    """got is the smaller (1) or larger (-1) of a and b"""
    ge = (lambda x, y: q.ge(x, y)) if sign > 0 else (lambda x, y: q.ge(y, x))
    n = F.T.node[got]
    if n[0] == ("min" if sign > 0 else "max") and set(n[1:]) == {a, b}:
        return True
    return got == a and ge(b, a) or got == b and ge(a, b)


def member(F, q, c, name):
    """(holds, why) of a vector operation on a path, None when the name promises nothing"""
    A, T, v = F.A, F.T, F.v
    par = F.par
    neg = lambda x: A.mul(A.num(-1), x)
    n = F.size(c) if c in POINTS else None
    own = c in POINTS
    ctor = own and name == c
    types = [x[0].rstrip("&*") for x in par]

    def dotp(a, b):
        s = A.num(0)
        for x, y in zip(a, b):
            s = A.add(s, A.mul(x, y))
        return s

    def root(t, form):
        """t is the non-negative square root of form"""
        m = T.node[t]
        if A.equal(A.of(t), A.sqrt(form)):
            return True
        return m[0] == "call" and m[1] in ("sqrt", "sqrtf") and A.equal(A.of(m[2][0]), form)
    if ctor:
        got = F.out(0, q)
        t = types[1:]
        if not t:
            want = [A.num(0)] * n
        elif t == ["float"] and par[1][1] == "val":
            want = F.inp(1) * n
        elif t == ["float"]:
            want = F.inp(1, n)
        elif t[0] in POINTS:
            want = [x for j in range(len(t)) for x in F.inp(1 + j)]
        else:
            want = [x for j in range(len(t)) for x in F.inp(1 + j)]
        if len(want) != n:
            return None
        return F.same(got, want), "the components are not those given"
    if c == "Ray":
        if name == "Ray":
            got = F.out(0, q, 6)
            t = types[1:]
            want = [A.num(0)] * 6 if not t else [x for j in range(len(t)) for x in F.inp(1 + j)]
            if len(want) != 6:
                return None
            lay = layout(F.p, "Ray")
            z = q.cell(("arg", 0), lay["ricochet"][2], lay["ricochet"][3])
            return F.same(got, want) and v.num(z) == 0, "not the ray given, with no bounces yet"
        if name == "apply":
            r, t = F.inp(0, 6), F.inp(1)[0]
            return F.same(F.result(q), [A.add(r[k], A.mul(r[3 + k], t)) for k in range(3)]), "not the point at that distance"
        return None
    if c == "AABB":
        b = F.inp(0, 6)
        d = [A.sub(b[3 + k], b[k]) for k in range(3)]
        if name == "center":
            return F.same(F.result(q), [A.mul(A.num(Fraction(1, 2)), A.add(b[k], b[3 + k])) for k in range(3)]), "not the point halfway between the corners"
        if name == "surface":
            s = A.add(A.add(A.mul(d[0], d[1]), A.mul(d[1], d[2])), A.mul(d[0], d[2]))
            return F.same(F.result(q), [A.mul(A.num(2), s)]), "not the area of the six faces"
        if name == "volume":
            return F.same(F.result(q), [A.mul(d[0], A.mul(d[1], d[2]))]), "not the product of the sides"
        if name == "longest_axis":
            k = v.num(q.ret)
            if k not in (0, 1, 2):
                return False, "the axis is not definite"
            known = set()
            for t, f in q.facts.items():
                m = T.node[t]
                if m[0] == "lt":
                    e = A.sub(A.of(m[2]), A.of(m[1]))      # f: e > 0, not f: e <= 0
                    for i in range(3):
                        for j in range(3):
                            if i != j and A.equal(e, A.sub(d[i], d[j])):
                                known.add((i, j) if f else (j, i))      # side i >= side j
            reach, go = {k}, [k]
            while go:
                x = go.pop()
                for i, j in known:
                    if i == x and j not in reach:
                        reach.add(j)
                        go.append(j)
            return len(reach) == 3, "the side returned is not known to be the longest"
        return None
    if own:
        a, at = F.inp(0), F.arg(0)
        rest = par[1:]
    else:
        if not par:
            return None
        a, at = F.inp(0), F.arg(0)
        rest = par[1:]
    m = re.match(r"^operator([-+*/!])(=?)$", name)
    if m and name != "operator!=":
        op, asg = m.groups()
        if not rest:
            if op in "-!":
                return F.same(F.result(q), [neg(x) for x in a]), "not the opposite vector"
            return None
        b = F.inp(1)
        b = b * n if len(b) == 1 else b
        f = {"+": A.add, "-": A.sub, "*": A.mul, "/": A.div}[op]
        want = [f(x, y) for x, y in zip(a, b)]
        got = F.out(0, q) if asg else F.result(q)
        return F.same(got, want), "not the componentwise result"
    if name in ("operator==", "operator!="):
        ok, _, why = comparison(F, q, n, name == "operator==")
        return ok, why
    if name == "operator[]":
        x = T.mk("in", par[1][2])
        if F.dit[0].endswith("&"):
            want = T.mk("ptr", ("arg", par[0][2]), 0, ((4, x),))
        else:
            want = T.mk("mem", ("arg", par[0][2]), 0, ((4, x),), 4, 0)
        return q.ret == want, "not the component of that number"
    if name == "to_array":
        return F.same(F.out(1, q, n), a), "the array is not the components in order"
    if name in ("dot", "absdot"):
        d = dotp(a, F.inp(1))
        if name == "dot":
            return F.same(F.result(q), [d]), "not the sum of the products"
        g = F.A_(F.result(q))[0]
        return A.equal(A.mul(g, g), A.mul(d, d)) and T.node[q.ret][0] == "call" and T.node[q.ret][1].startswith("fabs"), "not the absolute value of the dot product"
    if name == "length":
        return root(q.ret, dotp(a, a)), "not the length"
    if name == "length2":
        return F.same(F.result(q), [dotp(a, a)]), "not the squared length"
    if name == "distance":
        d = [A.sub(x, y) for x, y in zip(a, F.inp(1))]
        return root(q.ret, dotp(d, d)), "not the distance"
    if name == "cross":
        w = V3(A, a).cross(V3(A, F.inp(1))).c
        got = F.out(2, q) if len(par) == 3 else F.result(q)
        return F.same(got, w), "not the cross product"
    if name == "is_normalized":
        return isunit(F, q, dotp(a, a)), "the answer does not say whether the length is one"
    if name == "normalize":
        got = F.out(0, q) if own else F.result(q)
        l2 = dotp(a, a)
        s = A.sqrt(l2)
        if F.same(got, [A.div(x, s) for x in a]):
            return True, ""
        return F.same(got, a) and near(F, q, l2), "a vector is left as it is although its length is not known to be one, or it is not divided by its length"
    if name in ("clamp", "saturate", "min", "max") and F.dit[0] in ("float", "int"):
        if name == "clamp":
            x, lo, hi = (F.arg(k)[0] for k in range(3))
            return bounded(F, q, x, lo, hi, q.ret), "not the number restricted to the interval"
        if len(par) == 2:
            return extremum(F, q, at[0], F.arg(1)[0], q.ret, 1 if name == "min" else -1), "not the %s of the two" % name
        return None
    if name == "clamp":
        got = F.out(0, q) if own else F.result(q)
        lo, hi = F.arg(1), F.arg(2)
        return all(bounded(F, q, at[k], lo[k], hi[k], got[k]) for k in range(len(at))), "a component is not restricted to its interval"
    if name == "saturate":
        got = F.out(0, q) if own else F.result(q)
        return all(bounded(F, q, x, T.const(0), T.const(1), g) for x, g in zip(at, got)), "a component is not restricted to 0..1"
    if name in ("min", "max"):
        got = F.out(0, q) if own else F.result(q)
        b = F.arg(1)
        return all(extremum(F, q, at[k], b[k], got[k], 1 if name == "min" else -1) for k in range(len(at))), "a component is not the %s of the two" % name
    if name == "reflect":
        b = F.inp(1)
        d = A.mul(A.num(2), dotp(a, b))
        got = F.out(0, q) if own else F.result(q)
        return F.same(got, [A.sub(x, A.mul(d, y)) for x, y in zip(a, b)]), "not the vector mirrored in the plane of the normal"
    if name == "refract":
        b, eta = F.inp(1), F.inp(2)[0]
        ci = dotp(a, b)
        one = A.num(1)
        s2i = A.sub(one, A.mul(ci, ci))
        got = F.out(0, q) if own else F.result(q)
        tir = None
        grazing = None          # 1 - cos^2 known below zero
        for t, f in q.facts.items():
            mm = T.node[t]
            if mm[0] != "lt":
                continue
            e = A.sub(A.of(mm[2]), A.of(mm[1]))       # f: e > 0
            for s2 in (s2i, A.num(0)):
                s2t = A.mul(s2, A.mul(eta, eta))
                if A.equal(e, A.sub(s2t, one)):
                    tir = f
                if A.equal(e, A.sub(one, s2t)):
                    tir = not f
            if A.equal(e, s2i):
                grazing = not f
            if A.equal(e, neg(s2i)):
                grazing = f
        s2 = A.num(0) if grazing else s2i
        if own:
            r = v.decide(q.st, q.ret)
            fail = r is False
            if r is None:
                return False, "the outcome is not definite"
        else:
            fail = F.same(got, [A.num(0)] * 3)
        if fail:
            return tir is True and (not own or not any(o < 12 for o, _ in q.stored(("arg", par[0][2]))) or F.same(got, a)), "refused although the angle is not known to be beyond the critical one"
        ct = A.sqrt(A.sub(one, A.mul(s2, A.mul(eta, eta))))
        k = A.sub(A.mul(ci, eta), ct)
        want = [A.add(neg(A.mul(x, eta)), A.mul(y, k)) for x, y in zip(a, b)]
        return F.same(got, want), "not the direction of Snell's law"
    return None


def lengthof(A, t, l2):
    """the term is the square l2 or its square root"""
    e = A.of(t)
    return A.equal(e, l2) or A.equal(e, A.sqrt(l2))


def near(F, q, l2):
    """the path knows that l2 is within 1e-4 of one"""
    lo = hi = False
    A = F.A
    for t, f in q.facts.items():
        n = F.T.node[t]
        if n[0] != "lt":
            continue
        for x, y, up in ((n[1], n[2], True), (n[2], n[1], False)):
            k = F.v.num(x)          # up: f means k < y
            if k is None or abs(k - 1) > 1e-4 or not lengthof(A, y, l2):
                continue
            if up:
                lo |= f and k <= 1
                hi |= not f and k >= 1
            else:
                hi |= f and k >= 1
                lo |= not f and k <= 1
    return lo and hi


def isunit(F, q, l2):
    v = F.v
    ok = True
    for val in (True, False):
        st = q.st.copy()
        r = v.decide(st, q.ret)
        if r is not None and r != val:
            continue
        if r is None:
            v.learn(st, q.ret, val)

        class Q:
            facts = st.facts
        if val:
            ok = ok and near(F, Q, l2)
        else:
            off = False
            for t, f in st.facts.items():
                n = F.T.node[t]
                if n[0] == "and" and not f:
                    off |= all(x[0] == "lt" and any(v.num(y) is not None and abs(v.num(y) - 1) < 1e-4 for y in x[1:]) for x in (F.T.node[z] for z in n[1:]))
                if n[0] == "lt":
                    for x, y, s in ((n[1], n[2], 1), (n[2], n[1], -1)):
                        k = v.num(x)
                        if k is not None and abs(k - 1) < 1e-4 and lengthof(F.A, y, l2):
                            # s>0: f means k < l2
                            off |= (f if s > 0 else not f) and k >= 1 or (not f if s > 0 else f) and k <= 1
            ok = ok and off
    return ok


# -------------------------------------------------------------------------------------------------- cameras
def lookat(ctx, prog, cfg):
    """the camera frame: position, direction to the target, and two axes upright and square to it"""
    p, fs = flat(r"^Matrix4::set_lookAt_inverse\(", cfg=cfg, keep=[UNIT.pattern, r"::is_normalized\("])
    ctx.need(len(fs) == 1, "Matrix4::set_lookAt_inverse")
    F = Fn(prog, p, fs[0], cfg)
    A = F.A
    ctx.count("functions")
    pos, eye, up = (F.inp(k) for k in (1, 2, 3))
    d = V3(A, eye) - V3(A, pos)
    num = A.num

    def unit(x):
        s = A.sqrt(x.dot(x))
        return V3(A, [A.div(y, s) for y in x.c])
    D, U = unit(d), V3(A, up)
    for q in F.paths():
        ctx.count("paths")
        M = F.A_(F.out(0, q))
        col = lambda c: V3(A, [M[4 * r + c] for r in range(3)])
        X, Y, Z, P = (col(c) for c in range(4))
        w = q.where()
        ctx.ob("camera-frame", "bottom row", all(A.equal(a, b) for a, b in zip(M[12:], map(num, (0, 0, 0, 1)))), w, "the last row is not 0 0 0 1")
        ctx.ob("camera-frame", "position", all(A.equal(a, b) for a, b in zip(P.c, pos)), w, "the origin is not the position of the camera")
        ctx.ob("camera-frame", "forward", all(A.equal(a, b) for a, b in zip(Z.c, D.c)), w, "the third axis is not the unit vector towards the target")
        side = [unit(u.cross(z)) for u in (U, unit(U)) for z in (D, d)]
        ok = any(all(A.equal(a, b) for a, b in zip(X.c, s.c)) for s in side)
        ctx.ob("camera-frame", "side", ok, w, "the first axis is not the unit vector square to the up vector and the view, on the side of up x forward")
        ctx.ob("camera-frame", "upright", all(A.equal(a, b) for a, b in zip(Y.c, Z.cross(X).c)), w, "the second axis is not forward x side")


def cameras(ctx, prog):
    p, fs = flat(r"^drive::(perspective|orthographic|panoramic)\(", cfg=front.DRIVE, keep=[UNIT.pattern, r"^Matrix4::set_lookAt_inverse\("])
    ctx.need(len(fs) == 3, "the cameras")
    for f in fs:
        camera(ctx, prog, p, f, re.match(r"drive::(\w+)", f.name).group(1))
    # the entry without offset rays is the single ray of the camera at hand
    p, fs = flat(r"^Camera::create_ray\(Sample const\*, Ray\*\) const$", cfg=front.RGB)
    ctx.need(len(fs) == 1, "Camera::create_ray(sample, ray)")
    v = vn.VN(fs[0], effects=const_effects(prog))
    lay = layout(p, "Ray")
    for q in v.segments():
        ev = [e for e in q.events if e[0] == "call" and "virt" in e[1].d]
        ok = len(ev) == 1 and all("::create_single_ray(" in t[0] for t in ev[0][1].d["virt"]["targets"])
        if ok:
            a = [v.ptr(x) for x in ev[0][3]]
            ok = a == [(("arg", 0), 0, ()), (("arg", 1), 0, ()), (("arg", 2), lay["origin"][2], ()), (("arg", 2), lay["direction"][2], ())]
        ctx.ob("camera", "create_ray(sample, ray)", ok, q.where(), "the ray is not the one of the camera for the sample")


def placement(ctx, prog):
    """objects and cameras of the input file: what the driver makes of position, rotation, scale and field of view"""
    OTHERS = r"^((MaterialLibrary|Console|CmdConsole|Asset|AreaLight|Scene|Mesh|Spectrum|ColorRGB|MeshWorld|File|TextureLibrary|TextureImage|TextureUniform|ImageMap[A-Za-z]*)::|img_|clamp\(|([a-z]+ )*std::|__gnu)"
    p, fs = flat(r"^ConfigDriver::build_meshes\(", cfg=front.RGB, keep=[OTHERS])
    ctx.need(len(fs) == 1, "ConfigDriver::build_meshes")
    v = Geo(prog, fs[0], front.RGB, p.types)
    T, A = v.T, v.A
    lay, made = layout(p, "MeshWorld"), set()

    def asset(st, i):
        if re.match(r"(Asset|AreaLight)::(Asset|AreaLight)\(Shape const\*, Matrix4 const&", i.callee or ""):
            r, off, vs = v.ptr(v.op(st, i.ops[2]))
            st.events.append(("object", i, [v.load(st, r, off + 4 * k, vs, 4) for k in range(16)]))
        return None
    v.hooks.append(asset)
    ctx.count("functions")
    fields = [(m, lay[m][2] + 4 * k) for m in ("position", "rotation", "scale") for k in range(3)]
    for q in v.segments():
        for e in [e for e in q.events if e[0] == "object"]:
            ctx.count("paths")
            i = e[1]
            made.add(i.i)
            # the description the numbers are read from, wherever it is kept
            src = {t for x in e[2] for t in leaves(T, x)}
            at = {T.node[t][1:2] + T.node[t][3:] for t in src}
            base = min((T.node[t][2] for t in src), default=0) - min(o for _, o in fields)
            ok = len(at) == 1 and {T.node[t][2] - base for t in src} == {o for _, o in fields}
            if ok:
                by = {T.node[t][2] - base: A.of(t) for t in src}
                pos, rot, sc = ([by[o] for n, o in fields if n == m] for m in ("position", "rotation", "scale"))
                M = [A.of(x) for x in e[2]]
                deg = {factor(A, x) for x in rot}
                ok = all(d is not None and abs(float(d) / (3.14159265358979 / 180) - 1) < 1e-5 for d in deg)
                ok = ok and all(A.equal(x, y) for x, y in zip(M, placed(A, pos, [A.mul(A.num(next(iter(deg))), x) for x in rot], sc)))
            ctx.ob("placement", "transform of " + i.callee.split("(")[0], ok, i.where(), "the object is not placed by scaling, turning around x, y and z (angles in degrees) and moving, in this order")
    ctx.need(len(made) >= 2, "assets and lights built from the input file")
    # an asset keeps the matrix and its inverse
    p, fs = flat(r"^Asset::Asset\(Shape const\*", cfg=front.RGB, keep=[r"^Matrix4::inverse\("])
    ctx.need(len(fs) == 1, "the constructor of Asset")
    v = Geo(prog, fs[0], front.RGB, p.types)
    lay = layout(p, "Asset")
    o2w, w2o = lay["objToWorld"][2], lay["worldToObj"][2]

    def snap(st, i):
        m = [v.T.node[v.load(st, ("arg", 0), o2w + 4 * k, (), 4)][:3] for k in range(16)]
        st.events.append(("matrix", all(n == ("mem", ("arg", 2), 4 * k) for k, n in enumerate(m)), all(n == ("mem", ("arg", 0), o2w + 4 * k) for k, n in enumerate(m))))
        return None
    v.hooks.append(snap)
    for q in v.segments():
        if q.kind != "ret":
            continue
        # calls that are handed a part of the asset may not be known to leave the rest alone
        s = [e[1:] for e in q.events if e[0] == "matrix"]
        ok = any(x for x, _ in s) and all(x or y for x, y in s[[x for x, _ in s].index(True):])
        inv = [[v.ptr(x) for x in e[3]] for e in q.events if e[0] == "call" and (e[1].callee or "").startswith("Matrix4::inverse(")]
        ok = ok and len(inv) == 1 and inv[0][0][:2] in ((("arg", 0), o2w), (("arg", 2), 0)) and inv[0][1][:2] == (("arg", 0), w2o)
        ctx.ob("placement", "matrices of Asset", ok, q.where(), "the asset does not keep the transformation and its inverse")
    # the camera of the input file
    p, fs = flat(r"^ConfigDriver::build_camera\(", cfg=front.RGB, keep=[r"^Camera[A-Za-z0-9]*::"])
    ctx.need(len(fs) == 1, "ConfigDriver::build_camera")
    v = Geo(prog, fs[0], front.RGB, p.types)
    T, A = v.T, v.A
    lay = layout(p, "ConfigDriver")
    for q in v.segments():
        if q.kind != "ret":
            continue
        made = [e for e in q.events if e[0] == "call" and re.match(r"(Camera\w+)::\1\(", e[1].callee or "")]
        ok = len(made) == 1 and q.ret == made[0][3][0]
        if ok:
            a = made[0][3][1:]
            ok = [v.ptr(x)[:2] for x in a[:3]] == [(("arg", 0), lay[m][2]) for m in ("camera_pos", "camera_tar", "camera_up")]
            ok = ok and [T.node[x][:3] for x in a[3:5]] == [("mem", ("arg", 0), lay[m][2]) for m in ("width", "height")]
            if ok and len(a) > 5:
                f = A.div(A.of(a[5]), A.of(T.mk("mem", ("arg", 0), lay["fov"][2], (), 4, 0)))
                k = A.const(f)
                ok = k is not None and abs(float(k) / (3.14159265358979 / 180) - 1) < 1e-5
        ctx.ob("placement", "camera", ok, q.where(), "the camera is not made of the position, target, up vector, resolution and (in degrees) field of view of the input file")


def leaves(T, t):
    """the memory a term is computed from"""
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        n = T.node[x]
        if n[0] == "mem":
            out.add(x)
        elif n[0] == "call":
            todo += n[2]
        elif n[0] != "c":
            todo += [y for y in n[1:] if isinstance(y, int) and not isinstance(y, bool)]
    return out


def identity(A, put=()):
    m = [A.num(1 if r == c else 0) for r in range(4) for c in range(4)]
    for k, x in dict(put).items():
        m[k] = x
    return m


def rotation(A, axis, angle):
    s, c = trig(A, angle)
    a, b = {"x": (1, 2), "y": (2, 0), "z": (0, 1)}[axis]
    return identity(A, {5 * a: c, 5 * b: c, 4 * a + b: A.mul(A.num(-1), s), 4 * b + a: s})


def placed(A, pos, rot, sc):
    m = identity(A, {4 * k + 3: pos[k] for k in range(3)})
    for k in (2, 1, 0):
        m = matmul(A, m, rotation(A, "xyz"[k], rot[k]))
    return matmul(A, m, identity(A, {5 * k: sc[k] for k in range(3)}))


def camera(ctx, prog, p, f, kind):
    F = Fn(prog, p, f, front.DRIVE)
    v, A, T = F.v, F.A, F.T
    ctx.count("functions")
    cls = {"perspective": "CameraPerspective", "orthographic": "CameraOrthographic", "panoramic": "Camera360"}[kind]
    src = [g for g in prog.funcs if g.name.startswith(cls + "::create_single_ray(")]
    ctx.need(src, cls + "::create_single_ray")
    at = "%s:%d, functions %s::%s and create_ray" % (ir.short(src[0].file), src[0].line, cls, cls)
    lay, sl = layout(p, "Ray"), layout(p, "Sample")
    cam = {}

    def frame(st, i):
        c = i.callee or ""
        if c.startswith("Matrix4::set_lookAt_inverse("):
            args = [v.ptr(v.op(st, o)) for o in i.ops]
            got = [[v.load(st, a[0], a[1] + 4 * k, a[2], 4) for k in range(3)] for a in args[1:]]
            st.events.append(("frame", i, got == [[v.load(st, ("arg", j), 4 * k, (), 4) for k in range(3)] for j in range(3)]))
            r, off, vs = args[0]
            for k in range(16):
                t = T.const(1 if k == 15 else 0) if k >= 12 else T.mk("cam", k // 4, k % 4)
                cam[k] = t
                v.store(st, r, off + 4 * k, vs, 4, t)
            return (None,)
        tg = [t[0] for t in i.d["virt"]["targets"]] if "virt" in i.d else [c]
        if tg and all("::create_single_ray(" in t for t in tg):
            a = [v.ptr(v.op(st, o)) for o in i.ops]
            s = [v.load(st, a[1][0], a[1][1] + sl[m][2], a[1][2], 4) for m in ("posx", "posy")]
            for h, dst in enumerate(a[2:4]):
                for k in range(3):
                    v.store(st, dst[0], dst[1] + 4 * k, dst[2], 4, T.mk("single", 3 * h + k, *s))
            return (None,)
        return None
    v.hooks.append(frame)
    v.invertible = True
    W, H, fov = (A.of(T.mk("in", k)) for k in (3, 4, 5))
    sr = ("arg", F.par[6][2])
    x, y = (A.of(T.mk("mem", sr, sl[m][2], (), 4, 0)) for m in ("posx", "posy"))
    one, two = A.num(1), A.num(2)
    good = {True: 0, False: 0}
    half = A.div(W, H)

    def aspect(q):
        """set of 'wide', 'tall' the path facts say (both when the sides are equal)"""
        out = set()
        for t, b in q.facts.items():
            n = T.node[t]
            if n[0] == "lt":
                e = A.sub(A.of(n[2]), A.of(n[1]))
                for w, s in ((A.sub(half, one), 1), (A.sub(one, half), -1), (A.sub(W, H), 1), (A.sub(H, W), -1)):
                    if A.equal(e, w):
                        out.add("wide" if b == (s > 0) else "tall")
        return out

    def spec(px, py, wide):
        a, b = (half, one) if wide else (one, A.div(one, half))
        sx = A.mul(a, A.sub(A.div(A.mul(two, px), W), one))
        sy = A.mul(b, A.sub(one, A.div(A.mul(two, py), H)))
        if kind == "perspective":
            s, c = trig(A, A.div(fov, two))
            t = A.div(s, c)
            return [A.num(0)] * 3, [A.mul(sx, t), A.mul(sy, t), one]
        if kind == "orthographic":
            return [sx, sy, A.num(0)], [A.num(0), A.num(0), one]
        st, ct = trig(A, A.mul(A.num(pi), A.div(py, H)))
        sp, cp = trig(A, A.mul(A.num(2 * pi), A.div(px, W)))
        return [A.num(0)] * 3, [A.mul(st, cp), ct, A.mul(st, sp)]
    pi = None
    C = lambda r, c: A.of(T.mk("cam", r, c))
    rot = quaternion(A)
    for q in v.segments():
        if q.kind != "ret":
            continue
        ctx.count("paths")
        fr = [e for e in q.events if e[0] == "frame"]
        ok = len(fr) == 1 and fr[0][2]
        ctx.ob("camera", kind + ": frame", ok, at, "the frame is not made of the camera's position, target and up vector")
        wide = None
        if kind != "panoramic":
            asp = aspect(q)
            ctx.ob("camera", kind + ": aspect", bool(asp), at, "which side of the image is longer does not matter on this path")
            if not asp:
                continue
            wide = "wide" in asp
            good[wide] += 1
        else:
            # the numbers used for pi
            F.A_([q.cell(("arg", F.par[10][2]), 12 + 4 * k) for k in range(3)])
            pi = factor(A, A.div(y, H)) or pi
            if pi is None or abs(float(pi) - 3.14159265358979) > 1e-5:
                ctx.ob("camera", kind + ": angles", False, at, "the polar angle is not pi times the height")
                continue
        for j, name, px, py in ((10, "single ray", x, y), (7, "ray", x, y), (8, "x offset", A.add(x, one), y), (9, "y offset", x, A.add(y, one))):
            g = [q.cell(("arg", F.par[j][2]), lay[m][2] + 4 * k) for m in ("origin", "direction") for k in range(3)]
            n = [T.node[t] for t in g]
            if all(m[0] == "single" for m in n):
                ok = all(m[1] == k and A.equal(A.of(m[2]), px) and A.equal(A.of(m[3]), py) for k, m in enumerate(n))
                ctx.ob("camera", "%s: %s" % (kind, name), ok, at, "not the ray of the sample's position%s" % ("" if j in (7, 10) else " moved by one pixel"))
                continue
            o, d = spec(px, py, wide)
            O, D = V3(A, F.A_(g[:3])), V3(A, F.A_(g[3:]))
            want = [C(r, 3) for r in range(3)]
            dirw = []
            for r in range(3):
                s = A.num(0)
                for c in range(3):
                    want[r] = A.add(want[r], A.mul(C(r, c), o[c]))
                    s = A.add(s, A.mul(C(r, c), d[c]))
                dirw.append(s)
            ok = all(A.equal(a, b) for a, b in zip(O.c, want))
            ctx.ob("camera", "%s: %s: origin" % (kind, name), ok, at, "the ray does not start where the camera is%s" % (" looking from at this pixel" if kind == "orthographic" else ""))
            ok = all(A.zero(z) for z in D.cross(V3(A, dirw)).c)
            ctx.ob("camera", "%s: %s: direction" % (kind, name), ok, at, "the ray does not go through the sample's place on the image plane%s" % ("" if j in (7, 10) else ", one pixel on"))
            # of unit length, and forwards: with an arbitrary rotation for the frame
            B = alg.Alg(T, subst={})
            R = quaternion(B)
            B.subst = {T.mk("cam", r, c): R[r][c] for r in range(3) for c in range(3)}
            E = V3(B, [B.of(t) for t in g[3:]])
            ok = B.equal(E.dot(E), B.num(1))
            ctx.ob("camera", "%s: %s: unit" % (kind, name), ok, at, "the direction is not of unit length")
            pt = {("cam", r, c): 1.0 if r == c else 0.0 for r in range(3) for c in range(4)}
            pt.update({("in", 3): 3.0 if wide else 2.0, ("in", 4): 2.0 if wide else 3.0, ("in", 5): 1.0})
            pt.update({T.node[T.mk("mem", sr, sl[m][2], (), 4, 0)]: z for m, z in (("posx", 0.25), ("posy", 0.5))})
            vals = [evaluate(T, t, pt) for t in g[3:]]
            wants = evalspec(kind, wide, pt, j)
            ok = sum(a * b for a, b in zip(vals, wants)) > 0
            ctx.ob("camera", "%s: %s: forward" % (kind, name), ok, at, "the ray goes the opposite way")
    if kind != "panoramic":
        ctx.need(good[True] and good[False], "wide and tall images of the %s camera" % kind)


def quaternion(A):
    """an arbitrary rotation"""
    a, b, c, d = (A.var(("q", k)) for k in range(4))
    m, add, sub, two = A.mul, A.add, A.sub, A.num(2)
    sq = [m(x, x) for x in (a, b, c, d)]
    n = add(add(sq[0], sq[1]), add(sq[2], sq[3]))
    e = [[sub(add(sq[0], sq[1]), add(sq[2], sq[3])), m(two, sub(m(b, c), m(a, d))), m(two, add(m(b, d), m(a, c)))],
         [m(two, add(m(b, c), m(a, d))), sub(add(sq[0], sq[2]), add(sq[1], sq[3])), m(two, sub(m(c, d), m(a, b)))],
         [m(two, sub(m(b, d), m(a, c))), m(two, add(m(c, d), m(a, b))), sub(add(sq[0], sq[3]), add(sq[1], sq[2]))]]
    return [[A.div(x, n) for x in r] for r in e]


def factor(A, z):
    """k such that the sine or cosine of k times z has been used"""
    (n0, d0) = A.key(z)
    for k in A.atoms:
        if k[0] in ("sin", "cos"):
            n, d = k[1]
            if d == d0 and len(n) == 1 and len(n0) == 1:
                (m, c), = n
                (m0, c0), = n0
                if m == m0:
                    return Fraction(c) / c0
    return None


def evaluate(T, t, at):
    """a term at a point: the sign of a quantity that never vanishes"""
    import math
    memo = {}
    fn = {"sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "tan": math.tan, "fabs": abs}

    def go(t):
        if t in memo:
            return memo[t]
        n = T.node[t]
        if n in at:
            r = at[n]
        elif n[0] == "c":
            r = float(n[1])
        elif n[0] in ("fadd", "add"):
            r = go(n[1]) + go(n[2])
        elif n[0] in ("fsub", "sub"):
            r = go(n[1]) - go(n[2])
        elif n[0] in ("fmul", "mul"):
            r = go(n[1]) * go(n[2])
        elif n[0] == "fdiv":
            r = go(n[1]) / go(n[2])
        elif n[0] == "fneg":
            r = -go(n[1])
        elif n[0] == "call" and n[1].rstrip("f") in fn and len(n[2]) == 1:
            r = fn[n[1].rstrip("f")](go(n[2][0]))
        elif n[0] == "call" and n[1] == "fabsf":
            r = abs(go(n[2][0]))
        else:
            raise AnalysisError("the value of " + T.show(t)[:60])
        memo[t] = r
        return r
    return go(t)


def evalspec(kind, wide, at, j):
    import math
    W, H = at[("in", 3)], at[("in", 4)]
    x, y = 0.25 + (j == 8), 0.5 + (j == 9)
    if kind == "orthographic":
        return [0, 0, 1]
    if kind == "panoramic":
        th, ph = math.pi * y / H, 2 * math.pi * x / W
        return [math.sin(th) * math.cos(ph), math.cos(th), math.sin(th) * math.sin(ph)]
    a, b = (W / H, 1) if wide else (1, H / W)
    t = math.tan(0.5)
    return [a * (2 * x / W - 1) * t, b * (1 - 2 * y / H) * t, 1]
