"""Value numbering over the intersection and bounding routines of the shapes, with the numbers compared as rational
functions of the ray, the vertices and the matrix.  Triangle: the path facts of a hit must say that both barycentric
coordinates (Cramer's rule, as polynomials) are not negative and sum to at most one, and the stored distance, normal,
texture coordinates and tangents must be the interpolated ones; a miss needs one of the opposite facts.  Sphere: the
reported distance must solve the quadratic equation, a miss or a far hit needs a reason for each solution passed over.
Boxes: on every path each bound is ordered against every vertex or transformed corner."""
import re
import front, ir, flow, vn, alg
from front import AnalysisError
from common import *
import c08
from c08 import params, const_effects, short, fields, MASKED, Ray

LEVEL = "other"
ASSUMES = ["comparisons are made on numbers (a NaN other than a literal one is not followed)",
           "rounding is not modelled: values are compared as real functions",
           "the ray, distance, hit record and mask handed to a routine do not overlap"]


def run(ctx):
    for cfg in ([front.RGB] if ctx.tier == "quick" else [front.RGB, front.FULL]):
        prog = program(cfg)
        triangle(ctx, prog, cfg)
        sphere(ctx, prog, cfg)
        boxes(ctx, prog, cfg)
    ctx.at_least("miss-with-reason", 3)
    ctx.at_least("hit-inside", 1)
    ctx.at_least("box-contains", 8)


class Paths:
    """paths of a leaf intersection routine with what the mask was asked"""

    def __init__(self, ctx, prog, cfg, cls):
        p, fl = flat(r"^%s::intersect\(" % cls, keep=[r"::is_masked\("], cfg=cfg)
        ctx.need(len(fl) == 1, cls + "::intersect")
        self.p, self.f = p, fl[0]
        f = self.f
        self.pd, self.ph, self.pr, self.pm = params(f, r"float\*$", r"HitPoint\*$", r"const Ray\*$", r"const MaskBoolean\*$")
        self.v = v = vn.VN(f, effects=const_effects(prog))
        self.T = v.T
        o = {x[0]: x[2] for x in p.types["HitPoint"]["fields"]}
        call0 = v.call

        def call(st, i):
            if i.callee and MASKED.match(i.callee):
                r, off, vs = v.ptr(v.op(st, i.ops[1]))
                pt = tuple(v.load(st, r, off + o["point_h"] + 4 * k, vs, 4) for k in range(3))
                t = call0(st, i)
                uv = tuple(v.load(st, r, off + o["uv"] + 4 * k, vs, 4) for k in range(2))
                st.events.append(("mask", t, pt, uv))
                return t
            return call0(st, i)
        v.call = call
        self.ps = [q for q in v.segments() if q.kind == "ret" and not any(b and self.T.node[t][0] == "isnan" for t, b in q.facts.items())]
        ctx.count("paths", len(self.ps))
        ctx.count("functions")
        self.A = alg.Alg(self.T)
        self.R = Ray(p, f, self.T, self.pr)
        self.D, self.H = ("arg", self.pd), ("arg", self.ph)
        self.d0 = self.T.mk("mem", self.D, 0, (), 4, 0)
        self.forms = {}

    def form(self, t):
        if t not in self.forms:
            self.forms[t] = self.A.of(t)
        return self.forms[t]

    def outcome(self, q):
        return self.v.decide(q.st, q.ret)

    def atoms(self, q):
        """(kind, x, y) known on the path: 'lt' x<y, 'ge' x>=y, 'eq', 'ne'"""
        for t, b in q.facts.items():
            n = self.T.node[t]
            if n[0] == "lt":
                yield ("lt" if b else "ge"), n[1], n[2]
            elif n[0] == "eq":
                yield ("eq" if b else "ne"), n[1], n[2]

    def masked(self, q, dist):
        """the mask rejected the point at this distance"""
        for e in q.events:
            if e[0] == "mask" and q.holds(e[1]):
                if all(self.same(x, self.at(k, dist)) or c08.nudged(self.v, q, self.A, x, self.at(k, dist)) for k, x in enumerate(e[2])):
                    return True
        return False

    def at(self, k, dist):
        return self.A.add(self.form(self.R.o[k]), self.A.mul(dist, self.form(self.R.d[k])))

    def same(self, t, form):
        key = (t, self.A.key(form))
        if key not in self.forms:
            self.forms[key] = self.A.equal(self.form(t), form)
        return self.forms[key]


class V3:
    """three rational functions"""

    def __init__(self, A, c):
        self.A, self.c = A, list(c)

    def __sub__(self, o):
        return V3(self.A, [self.A.sub(a, b) for a, b in zip(self.c, o.c)])

    def __add__(self, o):
        return V3(self.A, [self.A.add(a, b) for a, b in zip(self.c, o.c)])

    def scale(self, k):
        return V3(self.A, [self.A.mul(a, k) for a in self.c])

    def dot(self, o):
        r = self.A.num(0)
        for a, b in zip(self.c, o.c):
            r = self.A.add(r, self.A.mul(a, b))
        return r

    def cross(self, o):
        A, a, b = self.A, self.c, o.c
        m = lambda i, j: A.sub(A.mul(a[i], b[j]), A.mul(a[j], b[i]))
        return V3(A, [m(1, 2), m(2, 0), m(0, 1)])


def layout(prog, cls):
    return {x[0]: x for x in prog.types[cls]["fields"]}


def triangle(ctx, prog, cfg):
    P = Paths(ctx, prog, cfg, "Triangle")
    A, T, v = P.A, P.T, P.v
    tr, vx = layout(P.p, "Triangle"), layout(P.p, "Vertex")

    def vec(m, what, n=3):
        return V3(A, [A.of(T.mk("mem", ("arg", 0), tr[m][2] + vx[what][2] + 4 * k, (), 4, 0)) for k in range(n)])
    a, b, c = (vec(m, "p") for m in "abc")
    o, d = V3(A, map(A.of, P.R.o)), V3(A, map(A.of, P.R.d))
    ba, ca, tv = b - a, c - a, o - a
    det = d.cross(ca).dot(ba)
    U = A.div(d.cross(ca).dot(tv), det)
    V = A.div(d.dot(tv.cross(ba)), det)
    D = A.div(ca.dot(tv.cross(ba)), det)
    one = A.num(1)
    W = A.sub(A.sub(one, U), V)
    # the yardstick itself: the point at D is a + U(b-a) + V(c-a)
    lemma = (o + d.scale(D)) - (a + ba.scale(U) + ca.scale(V))
    ctx.need(all(A.zero(x) for x in lemma.c), "the solution of the plane equation")
    names = {"u": U, "v": V, "w": W, "1-u": A.sub(one, U), "1-v": A.sub(one, V), "det": det}
    memo = {}

    def classify(x, y):
        """the named quantity x - y equals, with its sign"""
        if (x, y) not in memo:
            e = A.sub(P.form(x), P.form(y))
            memo[(x, y)] = None
            for n, q in names.items():
                if A.equal(e, q):
                    memo[(x, y)] = (n, 1)
                elif A.equal(e, A.mul(A.num(-1), q)):
                    memo[(x, y)] = (n, -1)
        return memo[(x, y)]
    thr = set()
    isD = {}

    def dist(t):
        if t not in isD:
            isD[t] = P.same(t, D)
        return isD[t]
    uvs = [vec(z, "t", 2) for z in "abc"]
    uvs = (uvs[0].scale(W) + uvs[1].scale(U) + uvs[2].scale(V)).c
    for q in P.ps:
        r = P.outcome(q)
        if r is None:
            ctx.ob("hit-inside", "Triangle", False, q.where(), "outcome not definite")
            continue
        neg, nonneg, detz, detnz, near, far = set(), set(), False, False, None, None
        for k, x, y in P.atoms(q):
            c1 = classify(x, y)
            if c1:
                n, s = c1
                if n == "det":
                    detz |= k == "eq"
                    detnz |= k in ("ne", "lt")
                elif k == "lt":
                    (neg if s > 0 else nonneg).add(n)
                elif k == "ge" and s > 0:
                    nonneg.add(n)
                elif k == "eq":
                    nonneg.add(n)
            if k == "lt" and dist(x) and v.num(y) is not None:
                near = v.num(y)
            if k == "ge" and dist(x) and v.num(y) is not None and v.num(y) > 0:
                thr.add(v.num(y))
            if k == "lt" and x == P.d0 and dist(y):
                far = True
        if r:
            ok = nonneg >= {"u", "v", "w"}
            ctx.ob("hit-inside", "Triangle", ok, q.where(), "a hit is reported although only %s of the barycentric coordinates are known not to be negative" % (", ".join(sorted(nonneg & {"u", "v", "w"})) or "none"))
            ctx.ob("hit-inside", "Triangle:det", detnz, q.where(), "a hit is reported without the ray being known not to be parallel to the plane")
            got = q.cell(P.D, 0)
            ctx.ob("distance-solves", "Triangle", dist(got), q.where(), "the distance reported is %s, not the solution of the plane equation" % T.show(got)[:200])
            for m, n in (("normal_h", "n"), ("uv", "t")):
                va, vb, vc = (vec(z, n, 3 if n == "n" else 2) for z in "abc")
                offs = list(fields(P.p, "HitPoint", m))
                want = (va.scale(W) + vb.scale(U) + vc.scale(V)).c
                got = [q.cell(P.H, x) for x in offs]
                ok = all(P.same(x, y) for x, y in zip(got, want))
                ctx.ob("interpolated", "Triangle:" + m, ok, q.where(), "%s is not the barycentric combination of the vertices'" % m)
            du, dv = (V3(A, [P.form(q.cell(P.H, x)) for x in fields(P.p, "HitPoint", m)]) for m in ("dpdu", "dpdv"))
            ta, tb, tc = (vec(z, "t", 2) for z in "abc")
            for e, t in ((a - c, ta - tc), (b - c, tb - tc)):
                z = du.scale(t.c[0]) + dv.scale(t.c[1]) - e
                ok = all(A.zero(x) for x in z.c)
                ctx.ob("tangents", "Triangle", ok, q.where(), "the tangents do not map the texture differences of the vertices to their differences in space")
        else:
            tooclose = near is not None and near > 0
            if tooclose:
                thr.add(near)
            ok = detz or bool(neg & {"u", "v", "w", "1-u", "1-v"}) or tooclose or bool(far) or any(e[0] == "mask" and q.holds(e[1]) and all(P.same(x, y) for x, y in zip(e[3], uvs)) for e in q.events)
            ctx.ob("miss-with-reason", "Triangle", ok, q.where(), "a path reports a miss although the point is not known to be outside, too near, too far or masked")
    ctx.ob("one-threshold", "Triangle", len(thr) == 1, P.f.name, "hits are accepted and refused at different thresholds: %s" % sorted(thr))
    ctx.thr = thr


def sphere(ctx, prog, cfg):
    P = Paths(ctx, prog, cfg, "Sphere")
    A, T, v = P.A, P.T, P.v
    o, d = V3(A, map(A.of, P.R.o)), V3(A, map(A.of, P.R.d))
    a, b, c = d.dot(d), A.mul(A.num(2), d.dot(o)), A.sub(o.dot(o), A.num(1))
    disc = A.sub(A.mul(b, b), A.mul(A.num(4), A.mul(a, c)))
    S = A.sqrt(disc)
    two_a = A.mul(A.num(2), a)
    roots = {s: A.div(A.add(A.mul(A.num(-1), b), S, s), two_a) for s in (1, -1)}
    tangent = A.div(A.mul(A.num(-1), b), two_a)
    z = V3(A, [A.add(x, A.mul(roots[1], y)) for x, y in zip(o.c, d.c)])
    ctx.need(A.zero(A.sub(z.dot(z), A.num(1))), "the solution of the sphere's equation")
    memo, dmemo, smemo = {}, {}, {}

    def root(t):
        if t not in memo:
            memo[t] = None
            if v.num(t) is None and T.node[t][0] not in ("mem", "in", "phi"):
                try:
                    for s, r in roots.items():
                        if P.same(t, r):
                            memo[t] = s
                    if memo[t] is None and P.same(t, tangent):
                        memo[t] = 0
                except (AnalysisError, ZeroDivisionError):
                    pass
        return memo[t]

    def isdisc(x, y):
        """k when x - y = disc + constant, with sign"""
        if (x, y) not in dmemo:
            e = A.sub(P.form(x), P.form(y))
            dmemo[(x, y)] = None
            for s in (1, -1):
                z = A.reduce(A.sub(e, A.mul(A.num(s), disc)))
                if not z[1] and set(z[0]) <= {()}:
                    dmemo[(x, y)] = (s, float(z[0].get((), 0)))
        return dmemo[(x, y)]
    thr = set()
    for q in P.ps:
        r = P.outcome(q)
        if r is None:
            ctx.ob("distance-solves", "Sphere", False, q.where(), "outcome not definite")
            continue
        # the solutions the path knows about
        terms = {}
        lo = hi = None
        for k, x, y in P.atoms(q):
            for t in (x, y):
                if root(t) is not None:
                    terms.setdefault(root(t), set()).add(t)
            e = isdisc(x, y)
            if e:
                s, c0 = e
                # s*disc + c0 <|>= 0
                if k == "lt" and s > 0 or k == "ge" and s < 0:      # disc < -c0 (or <= )
                    hi = min(hi, -c0 * s) if hi is not None else -c0 * s
                if k == "ge" and s > 0 or k == "lt" and s < 0:
                    lo = max(lo, -c0 * s) if lo is not None else -c0 * s
        V = q.cell(P.D, 0)
        if r:
            s = root(V)
            band = lo is not None and hi is not None and -1e-3 <= lo <= 0 and hi <= 0
            ok = s in (1, -1) or s == 0 and band
            ctx.ob("distance-solves", "Sphere", ok, q.where(), "the distance reported is %s, which does not solve the equation of the sphere" % T.show(V)[:160])
            if not ok:
                continue
            terms.setdefault(s, set()).add(V)
        cs = [k for k in c08.consts(v, q.st) if 0 < v.num(k) < 1]

        def useless(s):
            """a reason why the solution s is not the one to report"""
            for t in terms.get(s, ()):
                for k in cs:
                    if v.query_lt(q.st, t, k):
                        thr.add(v.num(k))
                        return True
                if v.query_lt(q.st, P.d0, t):
                    return True
                if r and (t == V or q.ge(t, V)):
                    return True
            return P.masked(q, roots[s] if s else tangent)
        if r:
            for k in cs:
                if v.reaches(q.st, V, k) is not None:
                    thr.add(v.num(k))
            if s:
                ctx.ob("nearest-solution", "Sphere", useless(-s), q.where(), "the other solution is passed over without a reason")
            # the record is made of the point
            pts = [q.cell(P.H, x) for x in fields(P.p, "HitPoint", "point_h")]
            free = coordinates(P, q, pts, V)
            ctx.ob("record-of-the-point", "Sphere", not free, q.where(), "%s depends on the ray by something else than the point reported" % free)
            nrm = [q.cell(P.H, x) for x in fields(P.p, "HitPoint", "normal_h")]
            want = [P.at(k, P.form(V)) for k in range(3)]
            ok = all(P.same(x, y) for x, y in zip(nrm, want))
            ctx.ob("normal-is-radial", "Sphere", ok, q.where(), "the normal is not the vector from the centre to the point")
            du = V3(A, [P.form(q.cell(P.H, x)) for x in fields(P.p, "HitPoint", "dpdu")])
            ok = A.zero(du.dot(V3(A, [P.form(x) for x in pts])))
            ctx.ob("tangents", "Sphere", ok, q.where(), "dpdu is not perpendicular to the radius")
        else:
            ok = hi is not None and hi <= 0 or all(useless(s) for s in (1, -1)) or useless(0) and 0 in terms
            ctx.ob("miss-with-reason", "Sphere", ok, q.where(), "a path reports a miss although a solution is not known to be too near, too far or masked")
    ctx.ob("one-threshold", "Sphere", len(thr) == 1 and thr == ctx.thr, P.f.name, "thresholds: %s, of triangles: %s" % (sorted(thr), sorted(ctx.thr)))


def coordinates(P, q, pts, V):
    """member of the record whose value depends on the ray once the point's coordinates are taken as given"""
    T = P.T
    stop = set(pts)
    memo = {}

    def uses(t):
        if t in stop:
            return False
        if t in memo:
            return memo[t]
        memo[t] = False
        n = T.node[t]
        if n[0] == "mem":
            memo[t] = n[1] == ("arg", P.pr)
        elif n[0] == "call":
            memo[t] = any(uses(x) for x in n[2])
        elif n[0] not in ("c", "in", "phi", "undef", "ptr", "xv"):
            memo[t] = any(uses(x) for x in n[1:] if isinstance(x, int) and not isinstance(x, bool))
        return memo[t]
    for m in ("uv", "dpdu", "dpdv"):
        for x in fields(P.p, "HitPoint", m):
            if uses(q.cell(P.H, x)):
                return m
    return None


# ---------------------------------------------------------------------------------------------- bounding boxes
BOXOF = re.compile(r"^\w+::compute_AABB\((Matrix4 const\*)?\) const$")
KEEP = [r"^\w+::compute_AABB\(", r"^(min|max)\((float|double), (float|double)\)", r"^(float const|double const)& std::(min|max)<", r"^Matrix4::operator\*\(Point3 const&\) const", r"^Matrix4::(get_scale|inverse)\("]
MINMAX = re.compile(r"^(?:(?:float|double) const& )?(?:std::)?(min|max)(?:<(?:float|double)>)?\((float|double)")
INTR = {"fminf": "min", "fmaxf": "max", "fmin": "min", "fmax": "max", "minnum": "min", "maxnum": "max", "minimum": "min", "maximum": "max"}


class Boxes:
    """a routine with minima, maxima and transformed points as terms"""

    def __init__(self, prog, fn, cfg, n=1, cut=True, keep=()):
        self.p, fl = flat(fn, keep=KEEP + list(keep), cfg=cfg)
        if len(fl) != n and n or not fl:
            raise AnalysisError("%d instances of %s" % (len(fl), fn))
        self.fs = fl
        self.prog, self.cut = prog, cut
        self.watch = None

    def paths(self, f):
        v = vn.VN(f, cut=self.cut, effects=const_effects(self.prog))
        T = v.T
        call0 = v.call

        def call(st, i):
            c = i.callee or ""
            m = MINMAX.match(c)
            args = [v.op(st, o) for o in i.ops]
            if m:
                if c.startswith(m.group(2) + " const&"):
                    args = [v.load(st, *v.ptr(a)[:2], v.ptr(a)[2], 4) for a in args[:2]]
                    st.seq += 1
                    r = ("tmp", st.seq)
                    v.store(st, r, 0, (), 4, T.mk(m.group(1), *sorted(args)))
                    return T.mk("ptr", r, 0, ())
                return T.mk(m.group(1), *sorted(args[:2]))
            if c.startswith("Matrix4::operator*(Point3 const&)"):
                k = len(i.ops) - 2
                xyz = [v.load(st, *v.ptr(args[k + 1])[:1], v.ptr(args[k + 1])[1] + 4 * j, v.ptr(args[k + 1])[2], 4) for j in range(3)]
                r, off, vs = v.ptr(args[k])
                t = [T.mk("mxp", j, r, off, vs, *xyz) for j in range(3)]
                if k:
                    for j in range(3):
                        v.store(st, v.ptr(args[0])[0], v.ptr(args[0])[1] + 4 * j, v.ptr(args[0])[2], 4, t[j])
                    return None
                return T.mk("agg", (((0,), T.mk("vec", t[0], t[1])), ((1,), t[2])))
            if re.match(r"Matrix4::inverse\(Matrix4\s?\*\) const", c):
                r, off, vs = v.ptr(args[1])
                for k in range(16):
                    v.store(st, r, off + 4 * k, vs, 4, T.mk("inv", k, *v.ptr(args[0])))
                return T.mk("call", c, tuple(args), i.i)
            tg = [x[0] for x in i.d["virt"]["targets"]] if "virt" in i.d else [c]
            if tg and all(BOXOF.match(x) for x in tg):
                mats = [v.ptr(a)[:2] for a in args[2:]]
                r, off, vs = v.ptr(args[0])
                for k in range(6):
                    v.store(st, r, off + 4 * k, vs, 4, T.mk("boxof", k, *v.ptr(args[1]), *mats))
                st.events.append(("boxof", i, (r, off, vs), v.ptr(args[1]), mats))
                return None
            if self.watch:
                st.events.append(("snap", [v.load(st, ("arg", 0), self.watch[0] + o, (), 4) for o in range(0, 24, 4)]))
            m = re.match(r"^(\w+)::\w+\(", c)
            part = m and args and self.p.types.get(m.group(1))
            sub = v.ptr(args[0]) if part else None
            if sub and sub[0] == ("arg", 0) and sub[1] and not sub[2]:      # a method of a member: only the member changes
                lo, hi = sub[1], sub[1] + part["size"]
                keep = {k: x for k, x in st.mem.get(sub[0], {}).items() if not k[1] and not lo <= k[0] < hi}
                ver = st.ver.get(sub[0], 0)
                t = call0(st, i)
                st.mem[sub[0]] = keep
                st.ver[sub[0]] = ver
                for k in range(lo, hi, 4):
                    st.seq += 1
                    v.store(st, sub[0], k, (), 4, T.mk("opaque", st.seq))
                return t
            t = call0(st, i)
            if t is not None and T.node[t][0] == "call" and len(T.node[t]) == 3 and T.node[t][1] in INTR:
                return T.mk(INTR[T.node[t][1]], *sorted(T.node[t][2]))
            return t
        v.call = call
        return v, v.segments()


def inst_name(f):
    return re.sub(r" \(\.irclone\)| const\b", "", f.name).strip()


def below(v, q, b, x, sign, d=0):
    """b <= x (sign 1) or b >= x (sign -1) on the path"""
    T = v.T
    if b == x or (q.ge(x, b) if sign > 0 else q.ge(b, x)):
        return True
    m, n = T.node[b], T.node[x]
    kind = "min" if sign > 0 else "max"
    if m[0] == kind and any(below(v, q, y, x, sign, d + 1) for y in m[1:]):
        return True
    other = "max" if sign > 0 else "min"
    if m[0] == other and all(below(v, q, y, x, sign, d + 1) for y in m[1:]):
        return True
    if n[0] == kind and all(below(v, q, b, y, sign, d + 1) for y in n[1:]):
        return True
    if n[0] == other and any(below(v, q, b, y, sign, d + 1) for y in n[1:]):
        return True
    return False


def missing(v, q, root, off, vars, pts):
    """bound that is not beyond a coordinate of one of the points"""
    for s, base in ((1, 0), (-1, 12)):
        for k in range(3):
            b = q.cell(root, off + base + 4 * k, vars=vars)
            for n, p in pts.items():
                if not below(v, q, b, p[k], s):
                    return "%s.%s (%s) is not known to be %s %s" % ("bounds[0]" if s > 0 else "bounds[1]", "xyz"[k], v.T.show(b)[:80], "at most" if s > 0 else "at least", n)
    return None


def boxes(ctx, prog, cfg):
    types = None
    # the smaller and the larger of two numbers
    B = Boxes(prog, r"^(min|max)\((float|double), (float|double)\)$", cfg, n=0)
    for f in B.fs:
        v, ps = B.paths(f)
        sign = 1 if f.name.startswith("min") else -1
        ins = [v.T.mk("in", k) for k in range(2)]
        for q in ps:
            ok = (q.ret in ins or v.T.node[q.ret][1:] == tuple(ins)) and all(below(v, q, q.ret, x, sign) for x in ins)
            ctx.ob("min-max", f.name, ok, q.where(), "the value returned is not the %s one" % ("smaller" if sign > 0 else "larger"))
        ctx.count("functions")
    # a point or box taken into a box
    B = Boxes(prog, r"^AABB::(engulf|operator\+=?)\((Point3|AABB) const(&|\*)\)( const)?$", cfg, n=8, cut=False)
    for f in B.fs:
        v, ps = B.paths(f)
        ctx.count("functions")
        sret = any(a.get("sret") for a in f.d["args"])
        this, arg = (("arg", 1), ("arg", 2)) if sret else (("arg", 0), ("arg", 1))
        box = "(AABB" in f.name
        for q in ps:
            ctx.count("paths")
            mem = lambda r, o: [v.T.mk("mem", r, o + 4 * k, (), 4, 0) for k in range(3)]
            bad = None
            res = ("arg", 0)
            for s, base in ((1, 0), (-1, 12)):
                want = {"the box": mem(this, base), "what is added": mem(arg, base if box else 0)}
                for k in range(3):
                    b = q.cell(res, base + 4 * k)
                    for n, x in want.items():
                        if not below(v, q, b, x[k], s):
                            bad = bad or "bounds[%d].%s does not reach %s" % (base // 12, "xyz"[k], n)
            ctx.ob("box-grows", inst_name(f), bad is None, q.where(), bad)
    # inside
    B = Boxes(prog, r"^AABB::inside\(Point3 const[&*]\) const$", cfg, cut=False)
    v, ps = B.paths(B.fs[0])
    ctx.count("functions")
    for q in ps:
        r = v.decide(q.st, q.ret)
        mem = lambda r, o: [v.T.mk("mem", r, o + 4 * k, (), 4, 0) for k in range(3)]
        x, lo, hi = mem(("arg", 1), 0), mem(("arg", 0), 0), mem(("arg", 0), 12)
        inn = all(q.ge(a, b) for k in range(3) for a, b in ((x[k], lo[k]), (hi[k], x[k])))
        out = any(v.query_lt(q.st, a, b) for k in range(3) for a, b in ((x[k], lo[k]), (hi[k], x[k])))
        # the last comparison may be the value returned
        if r is None and q.ret is not None:
            st = q.st.copy()
            res = []
            for val in (True, False):
                s2 = q.st.copy()
                v.learn(s2, q.ret, val)
                res.append((val, s2))
            ok = True
            for val, s2 in res:
                inn = all(v.query_lt(s2, a, b) is False for k in range(3) for a, b in ((x[k], lo[k]), (hi[k], x[k])))
                out = any(v.query_lt(s2, a, b) for k in range(3) for a, b in ((x[k], lo[k]), (hi[k], x[k])))
                ok = ok and (inn if val else out)
        else:
            ok = r is not None and (inn if r else out)
        ctx.ob("box-inside", "AABB::inside", ok, q.where(), "the answer does not agree with the six comparisons")
    # boxes of the shapes
    B = Boxes(prog, r"^(Triangle|Sphere|Box|Mesh)::compute_AABB\((Matrix4 const\*)?\) const$", cfg, n=8, cut=False)
    for f in B.fs:
        v, ps = B.paths(f)
        T = v.T
        ctx.count("functions")
        cls = f.name.split("::")[0]
        this = ("arg", 1) if f.d["args"][0].get("sret") else ("arg", 0)
        mat = "Matrix4" in f.name
        lay = layout(B.p, cls)
        inst = inst_name(f)
        if cls == "Triangle":
            vx = layout(B.p, "Vertex")
            pts = {m: [T.mk("mem", this, lay[m][2] + vx["p"][2] + 4 * k, (), 4, 0) for k in range(3)] for m in "abc"}
        elif cls == "Mesh":
            bo = lay["aabb"][2] + layout(B.p, "AABB")["bounds"][2]
            c = lambda h, k: T.mk("mem", this, bo + 12 * h + 4 * k, (), 4, 0)
            pts = {"corner %d%d%d" % (a, b, d): [c(a, 0), c(b, 1), c(d, 2)] for a in (0, 1) for b in (0, 1) for d in (0, 1)}
        else:
            lo, hi = (-1.0, 1.0) if cls == "Sphere" else (0.0, 1.0)
            pts = {"(%g,%g,%g)" % (a, b, d): [T.const(a), T.const(b), T.const(d)] for a in (lo, hi) for b in (lo, hi) for d in (lo, hi)}
        if mat:
            M = ("arg", next(k for k, a in enumerate(f.d["args"]) if k > this[1] and a["ty"] == "ptr"))
            pts = {n: [T.mk("mxp", k, M, 0, (), *x) for k in range(3)] for n, x in pts.items()}
        for q in ps:
            ctx.count("paths")
            if cls == "Mesh" and not mat:
                same = [q.cell(("arg", 0), 4 * k) == T.mk("mem", this, bo + 4 * k, (), 4, 0) for k in range(6)]
                ctx.ob("box-contains", inst, all(same), q.where(), "the box returned is not the one computed from the triangles")
                continue
            bad = missing(v, q, ("arg", 0), 0, (), pts)
            ctx.ob("box-contains", inst, bad is None, q.where(), bad)
    # folded boxes
    fold(ctx, prog, cfg, r"^Mesh::finalize\(\)$", "Mesh", "aabb", "count", mesh_element, keep=[r"^Bvh::buildTree\("])
    fold(ctx, prog, cfg, r"^KdTree::buildTree\(\)$", "KdTree", "scene_aabb", "assets_number", asset_element, keep=[r"^KdTree::(build|finalize)\("])
    asset(ctx, prog, cfg)


def mesh_element(p, v, leaves, C):
    """the box of element C, by its six numbers, among the leaves of the bounds"""
    size = p.types["Triangle"]["size"]
    out = []
    for n in leaves:
        k, vs = (C * size, ()) if isinstance(C, int) else (C[1] * size, ((size, C[0]),))
        if n[0] == "boxof" and n[2] != ("arg", 0) and n[3:] == (k, vs):
            out.append([("boxof", j) + n[2:] for j in range(6)])
    return out


def asset_element(p, v, leaves, C):
    lay = layout(p, "Asset")
    bo = lay["aabb"][2]
    out = []
    for n in leaves:
        if n[0] == "mem" and n[1][0] == "val":
            m = v.T.node[n[1][1]]
            if m[0] != "mem":
                continue
            k, vs = (C * 8, ()) if isinstance(C, int) else (C[1] * 8, ((8, C[0]),))
            if m[2] == k and m[3] == vs:
                out += [[("mem", n[1], bo + 4 * j, (), 4, ver) for j in range(6)] for ver in {0, n[5]}]
    return out


def leaves(v, t, acc):
    n = v.T.node[t]
    if n[0] in ("min", "max"):
        for x in n[1:]:
            leaves(v, x, acc)
    else:
        acc.add(n)


def fold(ctx, prog, cfg, fn, cls, member, count, element, keep=()):
    """the loop that makes a box of the boxes of all elements"""
    B = Boxes(prog, fn, cfg, keep=keep, cut="auto")
    f = B.fs[0]
    p = B.p
    ctx.count("functions")
    lay = layout(p, cls)
    off, cnt = lay[member][2] + layout(p, "AABB")["bounds"][2], lay[count][2]
    this = ("arg", 0)
    B.watch = (off,)
    v, ps = B.paths(f)
    T = v.T

    def final(q):
        """the bounds when the function is done with them: at the end, or handed to the last call"""
        for c in [[q.cell(this, off + o) for o in range(0, 24, 4)]] + [e[1] for e in reversed(q.events) if e[0] == "snap"]:
            if not any(T.node[t][0] == "mem" and T.node[t][1] == this and T.node[t][5] for t in c):
                return c
        raise AnalysisError("the bounds at the end of " + f.name)
    # where the loop keeps the six bounds: in place, or in variables copied there afterwards
    acc = None
    for h in v.heads:
        end = [q for q in ps if q.start == h and not (q.kind == "cut" and q.dest == h)]
        back = [q for q in ps if q.start == h and q.kind == "cut" and q.dest == h]
        if not end or not back:
            continue
        slots = final(end[0])
        if not any(after(v, q, t) != t for q in back for t in slots):
            continue
        ctx.need(acc is None, "one loop that grows %s in %s" % (member, f.name))
        acc = (h, slots, end, back)
    ctx.need(acc is not None, "a loop that grows %s in %s" % (member, f.name))
    h, slots, end, back = acc
    ctx.need(all(final(q) == slots for q in end), "the box is the same however the loop of %s ends" % f.name)
    old = dict(zip(range(0, 24, 4), slots))

    def reaches(q, C):
        """every bound of the box is beyond element C (an integer or a counter term)"""
        ls = set()
        for o in old:
            leaves(v, after(v, q, old[o]), ls)
        # facts compare numbers that are not leaves
        for t in q.facts:
            for x in T.node[t][1:]:
                if isinstance(x, int) and not isinstance(x, bool) and x < len(T.node):
                    ls.add(T.node[x])
        return any(all(below(v, q, after(v, q, old[o]), T.mk(*pts[o // 4]), 1 if o < 12 else -1) for o in old)
                   for pts in element(p, v, sorted(ls, key=str), C))
    phis = [i for i in f.bbs[h] if i.op == "phi"]
    C = None
    for i in phis:
        t = T.mk("phi", i.bb, i.i)
        for s in (1, -1):
            if back and all(v.lin(q.phis[i.i]) == (s, {t: 1}) for q in back):
                C = (t, i, s)
    ctx.need(C is not None, "a counter in steps of one in the loop of " + f.name)

    def iscount(q, t):
        n = T.node[t]
        if n[0] == "pre" and f.ins[n[1]].op == "load":
            return v.ptr(v.op(q.st, f.ins[n[1]].ops[0])) == (this, cnt, ())
        return n[0] == "mem" and n[1:4] == (this, cnt, ())
    inst = "%s: %s" % (f.name.split("(")[0], member)
    for q in back:
        ctx.count("paths")
        keeps = all(below(v, q, after(v, q, old[o]), old[o], 1 if o < 12 else -1) for o in old)
        ctx.ob("box-of-all", inst, keeps, q.where(), "an iteration drops what the box already contained")
        ctx.ob("box-of-all", inst + ":element", reaches(q, (C[0], 0)) or C[2] < 0 and reaches(q, (C[0], -1)), q.where(), "an iteration passes over an element")
    ahead = C[2] < 0 and not all(reaches(q, (C[0], 0)) for q in back)       # counts down before it looks
    for q in ps:
        if q.start != h and q.kind == "cut" and q.dest == h:
            k, r = v.lin(q.phis[C[1].i])
            if C[2] > 0:
                ok = not r and k >= 0 and all(reaches(q, j) for j in range(k))
            else:
                ok = len(r) == 1 and all(iscount(q, t) and c == 1 for t, c in r.items()) and k == (0 if ahead else -1)
            ctx.ob("box-of-all", inst + ":first", ok, q.where(), "the loop starts at %s without the elements before it" % T.show(q.phis[C[1].i]))
    for q in end:
        ok = False
        for t, b in q.facts.items():
            n = T.node[t]
            if n[0] not in ("lt", "ult", "eq"):
                continue
            x, y = n[1:3]
            if C[2] > 0:
                ok |= n[0] != "eq" and x == C[0] and iscount(q, y) and b is False or n[0] == "eq" and b and (x == C[0] and iscount(q, y) or y == C[0] and iscount(q, x))
            else:
                z = 0 if ahead else -1
                ok |= n[0] == "eq" and b and C[0] in (x, y) and z in (v.num(x), v.num(y))
                ok |= n[0] == "lt" and (b and x == C[0] and v.num(y) == z + 1 or not b and y == C[0] and v.num(x) == z)
        ctx.ob("box-of-all", inst + ":last", ok, q.where(), "the loop can end before the last element")


def after(v, q, t):
    """what a loop variable, named by its value at the head, holds at the end of the segment"""
    n = v.T.node[t]
    if n[0] == "mem":
        return q.cell(n[1], n[2], n[4], n[3])
    if n[0] == "phi" and q.phis and n[2] in q.phis:
        return q.phis[n[2]]
    if n[0] == "el":
        x = after(v, q, n[1])
        m, k = v.T.node[x], v.num(n[2])
        return m[1 + k] if m[0] == "vec" and k is not None else v.T.mk("el", x, n[2])
    return t


def asset(ctx, prog, cfg):
    """an asset's box is its shape's under the matrix it keeps, its other matrix the inverse of that one"""
    B = Boxes(prog, r"^Asset::Asset\(", cfg)
    f = B.fs[0]
    v, ps = B.paths(f)
    T = v.T
    ctx.count("functions")
    lay = layout(B.p, "Asset")
    (sp,) = params(f, r"const Shape\*$")
    (tr,) = params(f, r"const Matrix4[&*]$")
    this = ("arg", 0)
    o2w, w2o, box = lay["objToWorld"][2], lay["worldToObj"][2], lay["aabb"][2]
    size = B.p.types["Matrix4"]["size"]
    for q in ps:
        ctx.count("paths")
        for k in range(0, size, 4):
            ok = q.cell(this, o2w + k) == T.mk("mem", ("arg", tr), k, (), 4, 0)
            if not ok:
                break
        ctx.ob("asset-box", "objToWorld", ok, q.where(), "the matrix kept is not the one given")
        n = [T.node[q.cell(this, box + 4 * k)] for k in range(6)]
        src = ("arg", sp)
        ok = all(x[0] == "boxof" and x[1] == k and x[2] == src and len(x) == 6 and x[5] in ((("arg", tr), 0), (this, o2w)) for k, x in enumerate(n))
        ctx.ob("asset-box", "aabb", ok, q.where(), "the box kept is not the shape's under the asset's matrix")
        n = [T.node[q.cell(this, w2o + 4 * k)] for k in range(16)]
        ok = all(x[0] == "inv" and x[1] == k and x[2:] in (((this, o2w, ())), (("arg", tr), 0, ())) for k, x in enumerate(n))
        ctx.ob("asset-box", "worldToObj", ok, q.where(), "worldToObj is not made the inverse of objToWorld")
