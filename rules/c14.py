"""Value numbering over the area, the cumulative areas and the sampling routine of every shape, and over the light: a
sampled point, as a formula of the random numbers, covers each part of the surface in proportion to its area, the search
for the part ends, and what a light reports of a sample (direction, distance, density, radiance) is measured in world
space, where its area is."""
import re
from fractions import Fraction
from itertools import permutations
import front, vn
from front import AnalysisError
from common import *
from c09 import layout
from c10 import Fn
from c13 import Smp, obligation, fields
from c12 import polar, product, dot, scale, unit, infinite
from optics import Case

LEVEL = "other"
ASSUMES = ["rounding is not modelled, decimal constants to six digits; random numbers are between 0 and 1",
           "meshes are decided for up to 5 (thorough: 8) triangles, each of them with an area",
           "spheres are scaled alike on all axes, the last row of a transformation is 0 0 0 1"]
ROOTS = (r"^(Sphere|Box|Triangle|Mesh)::(surface|sample_point|get_densities_array)\(|^(Shape|Box|Mesh)::get_faces_number\(|"
         r"^AreaLight::(AreaLight|emissive_spectrum|sample_surface|sample_visible_surface|pdf|is_light)\(|^Asset::is_light\(")
KEEP = [r"^(Vec3|Normal)::normalize", r"^normalize\(", r"^Triangle::(surface|sample_point)\(", r"^Asset::(Asset|intersect)\("]
AREA, DENS, SAMPLE, LIGHT = ("the area is that of the surface", "cumulative areas are those of the parts", "samples cover the surface evenly", "what a light reports of a sample")


class Shp(Smp):
    def __init__(self, prog, f, cfg, types, **kw):
        super().__init__(prog, f, cfg, types, **kw)
        self.hooks.insert(0, self.known)

    def put(self, st, addr, k, t, size=4):
        r, off, vs = self.ptr(addr)
        self.store(st, r, off + 4 * k, vs, size, t)

    def known(self, st, i):
        """what is asked of another object, by value"""
        name = i.callee or (i.d["virt"]["targets"][0][0] if "virt" in i.d and i.d["virt"]["targets"] else "")
        m = re.match(r"^(\w+)::(surface|sample_point|get_densities_array|get_faces_number|intersect|Asset)\((.*)\)", name)
        if not m:
            return None
        T, what = self.T, m.group(2)
        a = [self.op(st, o) for o in i.ops]
        if what == "Asset":
            st.events.append(("base", i, a))
            return (None,)
        if what == "surface":
            t = T.mk("call", "@area", tuple(a))
            st.events.append(("area", i, a, t))
            return (t,)
        if what == "get_faces_number":
            return (T.mk("call", "@faces", tuple(a)),)
        if what == "get_densities_array":
            st.events.append(("densities", i, a))
            return (None,)
        if what == "sample_point":
            for k in range(3):
                self.put(st, a[4], k, T.mk("call", "@p%d" % k, ()))
                self.put(st, a[5], k, T.mk("call", "@n%d" % k, ()))
            st.events.append(("sample", i, a))
            return (None,)
        if what == "intersect" and m.group(1) == "Asset":
            r, off, vs = self.ptr(a[1])
            ray = [self.load(st, r, off + 4 * k, vs, 4) for k in range(6)]
            before = self.load(st, *self.ptr(a[2])[:2], self.ptr(a[2])[2], 4)
            self.put(st, a[2], 0, T.mk("call", "@dist", ()))
            r, off, vs = self.ptr(a[3])
            n = {x[0]: x for x in self.types["HitPoint"]["fields"]}["normal_h"][2]
            for k in range(3):
                self.store(st, r, off + n + 4 * k, vs, 4, T.mk("call", "@hn%d" % k, ()))
            st.events.append(("intersect", i, a[0], ray, before))
            return (T.mk("call", "@hit", ()),)
        return None


class Where:
    def __init__(self, f):
        self.f = f

    def where(self):
        return next((i.where() for b in self.f.bbs for i in b if i.d.get("loc")), self.f.name)


class Sh(Fn):
    def __init__(self, prog, p, f, cfg, **kw):
        super().__init__(prog, p, f, cfg, **kw)
        self.v = Shp(prog, f, cfg, p.types, **kw)
        self.A, self.T = self.v.A, self.v.T

    def atom(self, name):
        return self.A.of(self.T.mk("call", name, ()))

    def spectrum(self, q):
        d = dict(self.T.node[q.ret][1]) if self.T.node[q.ret][0] == "agg" else {}
        if (0,) not in d or (1,) not in d:
            raise AnalysisError("the spectrum %s returns" % self.f.name)
        return self.pair(d[(0,)]) + [d[(1,)]]


def run(ctx):
    prog = program(front.RGB)
    p, fs = flat(ROOTS, keep=KEEP, cfg=front.RGB)
    by = {}
    for f in fs:
        name = re.sub(r"\(\.irclone\)| const$", "", f.name).strip().split("(")[0]
        if name == "AreaLight::AreaLight" and any("AreaLight" in x for x in f.d["ditypes"][2:]):
            continue
        by.setdefault(name, []).append(f)

    def fns(name, params=None):
        l = [f for f in by.get(name, ()) if params is None or params in ", ".join(f.d["ditypes"][2:])]
        if params == "":
            l = [f for f in by.get(name, ()) if len(f.d["ditypes"]) == 2]
        ctx.need(l, name)
        for f in l:
            ctx.count("functions")
            yield f

    def new(f, cls):
        F = Sh(prog, p, f, front.RGB, cut=False, unroll=60, limit=20000)
        F.p, F.types, F.cls = p, p.types, cls
        for k in range(3):
            F.A.subst[F.T.mk("mem", ("g", "SPECTRUM_BLACK"), 4 * k, (), 4, 0)] = F.A.num(0)
        for j, (t, how, k) in enumerate(F.par):
            if t == "float" and "sample" in f.name:
                F.A.within(F.inp(j)[0])
        return F

    sphere(ctx, fns, new)
    box(ctx, fns, new)
    triangle(ctx, fns, new)
    mesh(ctx, fns, new)
    light(ctx, fns, new)
    ctx.at_least(AREA, 8), ctx.at_least(DENS, 3), ctx.at_least(SAMPLE, 4), ctx.at_least(LIGHT, 7)


def lengths(F, j):
    """of the first three columns of a transformation"""
    A, T = F.A, F.T
    k = F.par[j][2]
    cell = lambda r, c: A.of(T.mk("mem", ("arg", k), 4 * (4 * r + c), (), 4, 0))
    return [A.sqrt(dot(A, *[[cell(r, c) for r in range(3)]] * 2)) for c in range(3)]


def returns(ctx, fns, new, cls, params, want, inst):
    for f in fns(cls + "::surface", params):
        F = new(f, cls)
        res = []
        for q in F.paths():
            res.append((q, any(F.same([q.ret], [w]) for w in want(F)), "not the area of the surface"))
        obligation(ctx, AREA, inst, res, f)


# ------------------------------------------------------------------------------------------------ shapes
def sphere(ctx, fns, new):
    returns(ctx, fns, new, "Sphere", "", lambda F: [F.A.mul(F.A.num(4), F.A.pi)], "Sphere::surface")

    def scaled(F):
        A = F.A
        s = lengths(F, 1)
        return [product(A, A.num(4), A.pi, x, y) for x in s for y in s]
    returns(ctx, fns, new, "Sphere", "Matrix4", scaled, "Sphere::surface (transformed)")
    for f in fns("Sphere::sample_point"):
        F = new(f, "Sphere")
        A = F.A
        res = []
        for q in F.paths():
            C = Case(F, q)
            r0, r1 = F.inp(1)[0], F.inp(2)[0]
            d = sphere_point(C, r0, r1)
            res.append((q, C.same(F.out(4, q, 3), d), "not the point at height 1-2 r0, azimuth 2 pi r1"))
            res.append((q, C.same(F.out(5, q, 3), d), "the normal is not the direction of the point"))
        obligation(ctx, SAMPLE, "Sphere::sample_point", res, f)


def sphere_point(C, r0, r1):
    A = C.A
    z = A.sub(A.num(1), A.mul(A.num(2), r0))
    s, c = polar(A, product(A, A.num(2), A.pi, r1))
    w = A.sub(A.num(1), A.mul(z, z))
    if C.sign(w) <= {"-", "0"}:
        return [A.num(0), A.num(0), z]      # it is never negative: a pole
    r = A.sqrt(w)
    return [A.mul(r, c), A.mul(r, s), z]


def box(ctx, fns, new):
    returns(ctx, fns, new, "Box", "", lambda F: [F.A.num(6)], "Box::surface")

    def total(F):
        A = F.A
        x, y, z = lengths(F, 1)
        return [A.mul(A.num(2), A.add(A.add(A.mul(x, y), A.mul(x, z)), A.mul(y, z)))]
    returns(ctx, fns, new, "Box", "Matrix4", total, "Box::surface (transformed)")
    for f in fns("Box::get_faces_number"):
        F = new(f, "Box")
        obligation(ctx, DENS, "Box::get_faces_number", [(q, F.v.num(q.ret) == 6, "a box has six faces") for q in F.paths()], f)
    normal = {}
    for f in fns("Box::get_densities_array"):
        F = new(f, "Box")
        A = F.A
        res = []
        for q in F.paths():
            s = lengths(F, 1)
            k = F.par[2][2]
            cum = [A.of(q.cell(("arg", k), 4 * j)) for j in range(6)]
            for j in range(6):
                a = A.sub(cum[j], cum[j - 1]) if j else cum[0]
                ax = [n for n in range(3) if A.zero(A.sub(a, A.mul(s[(n + 1) % 3], s[(n + 2) % 3])))]
                res.append((q, len(ax) == 1 and normal.setdefault(j, ax[0]) == ax[0], "part %d is not one face" % j))
            res.append((q, sorted(normal.values()) == [0, 0, 1, 1, 2, 2], "not each face, on both sides"))
            res.append((q, {o for o, v in q.stored(("arg", k))} == {4 * j for j in range(6)}, "not six areas"))
        obligation(ctx, DENS, "Box::get_densities_array", res, f)
    for f in fns("Box::sample_point"):
        F = new(f, "Box")
        A, T = F.A, F.T
        res, faces = [], set()
        d = ordered(F, 3, 6)
        for q in F.paths():
            C = Case(F, q)
            ext = A.mul(F.inp(1)[0], A.of(d[5]))
            k = part(C, A, ext, d)
            if k is None:
                res.append((q, False, "the conditions do not single out the part the number falls in"))
                continue
            lo = A.of(d[k - 1]) if k else A.num(0)
            u = A.div(A.sub(ext, lo), A.sub(A.of(d[k]), lo))
            p, n = [A.of(x) for x in F.out(4, q, 3)], [A.const(A.of(x)) for x in F.out(5, q, 3)]
            ax = normal.get(k)
            side = None if None in n or ax is None else n[ax]
            ok = side in (1, -1) and all(n[j] == 0 for j in range(3) if j != ax) and A.const(p[ax]) == (1 if side > 0 else 0)
            rest = [p[j] for j in range(3) if j != ax]
            ok = ok and any(A.equal(rest[i], u) and A.equal(rest[1 - i], F.inp(2)[0]) for i in (0, 1))
            faces.add((ax, side))
            res.append((q, ok, "part %d of the areas is not sampled on its face, outward" % k))
        res.append((res[-1][0], len(faces) == 6, "not every face is sampled"))
        obligation(ctx, SAMPLE, "Box::sample_point", res, f)


def ordered(F, j, n):
    """the cumulative areas, increasing"""
    T = F.T
    k = F.par[j][2]
    d = [T.mk("mem", ("arg", k), 4 * i, (), 4, 0) for i in range(n)]

    def init(v, st, s):
        v.learn(st, T.mk("lt", T.const(0), d[0]), True)
        for a, b in zip(d, d[1:]):
            v.learn(st, T.mk("lt", a, b), True)
    F.v.init = init
    # positive: what is compared with zero is decided
    F.A.nonneg.add(next(iter(F.A.of(d[0])[0]))[0][0])
    return d


def part(C, A, ext, d):
    """the interval of the cumulative areas the conditions put the number in"""
    n = len(d)
    up = [C.sign(A.sub(A.of(x), ext)) for x in d]
    hi = min([k for k in range(n) if "-" not in up[k]] + [n - 1])
    lo = max([k + 1 for k in range(n) if "+" not in up[k]] + [0])
    if lo >= n:
        return None
    return lo if lo == hi or hi == lo - 1 and up[hi] == {"0"} else None


def triangle(ctx, fns, new):
    def parts(F):
        A, T = F.A, F.T
        tr, vx = layout(F.p, "Triangle"), layout(F.p, "Vertex")
        return [[A.of(T.mk("mem", ("arg", 0), tr[m][2] + vx["p"][2] + 4 * k, (), 4, 0)) for k in range(3)] for m in "abc"]

    def cross(A, u, v):
        return [A.sub(A.mul(u[(k + 1) % 3], v[(k + 2) % 3]), A.mul(u[(k + 2) % 3], v[(k + 1) % 3])) for k in range(3)]

    def sub(A, u, v):
        return [A.sub(x, y) for x, y in zip(u, v)]

    def area(F, s=None):
        A = F.A
        P = parts(F)
        if s:
            P = [[A.mul(x, y) for x, y in zip(v, s)] for v in P]
        n = cross(A, sub(A, P[1], P[0]), sub(A, P[2], P[0]))
        return A.div(A.sqrt(dot(A, n, n)), A.num(2))
    returns(ctx, fns, new, "Triangle", "", lambda F: [area(F)], "Triangle::surface")
    returns(ctx, fns, new, "Triangle", "Matrix4", lambda F: [area(F, lengths(F, 1))], "Triangle::surface (transformed)")
    for f in fns("Triangle::sample_point"):
        F = new(f, "Triangle")
        A = F.A
        res = []
        P = parts(F)
        n = cross(A, sub(A, P[1], P[0]), sub(A, P[2], P[0]))
        ways = []
        for r0, r1 in ((F.inp(1)[0], F.inp(2)[0]), (F.inp(2)[0], F.inp(1)[0])):
            sq = A.sqrt(r0)
            bc = [A.sub(A.num(1), sq), A.mul(r1, sq)]
            bc.append(A.sub(A.sub(A.num(1), bc[0]), bc[1]))
            for o in permutations(P):
                ways.append([A.add(A.add(A.mul(bc[0], o[0][k]), A.mul(bc[1], o[1][k])), A.mul(bc[2], o[2][k])) for k in range(3)])
        for q in F.paths():
            C = Case(F, q)
            if C.sign(F.inp(1)[0]) <= {"-"} or C.sign(F.inp(2)[0]) <= {"-"}:
                continue    # not a random number
            got = F.out(4, q, 3)
            res.append((q, any(C.same(got, w) for w in ways), "not the vertices weighed by 1-sqrt(r0), r1 sqrt(r0) and the rest"))
            res.append((q, C.same(F.out(5, q, 3), unit(A, n)), "the normal is not that of the triangle"))
        obligation(ctx, SAMPLE, "Triangle::sample_point", res, f)


def mesh(ctx, fns, new):
    top = 5 if ctx.tier == "quick" else 8

    def fixed(f, n):
        F = new(f, "Mesh")
        lay, tri = fields(F.p, "Mesh"), F.p.types["Triangle"]["size"]
        F.v.preset[("arg", 0), lay["count"], 4] = n
        tris = F.T.mk("mem", ("arg", 0), lay["tris"], (), 8, 0)

        def which(t):
            r, off, vs = F.v.ptr(t)
            return off // tri if r == ("val", tris) and off % tri == 0 and not vs else None
        return F, which

    def areas(F, which, ts, extra):
        """the triangles whose areas a sum consists of"""
        out = []
        for t in ts:
            n = F.T.node[t]
            if n[0] == "fadd":
                out += areas(F, which, n[1:], extra)
            elif n[:2] == ("call", "@area") and list(n[2][1:]) == extra:
                out.append(which(n[2][0]))
            elif F.v.num(t) != 0:
                out.append(None)
        return out
    for params, inst in (("", "Mesh::surface"), ("Matrix4", "Mesh::surface (transformed)")):
        for f in fns("Mesh::surface", params):
            res = []
            for n in range(1, top + 1):
                F, which = fixed(f, n)
                extra = [F.v.op(F.v.fresh(), ("a", F.par[1][2]))] if params else []
                for q in F.paths():
                    got = areas(F, which, [q.ret], extra)
                    res.append((q, None not in got and sorted(got) == list(range(n)), "not the sum over all triangles"))
            obligation(ctx, AREA, inst, res, f)
    for f in fns("Mesh::get_faces_number"):
        F, which = fixed(f, 77)
        obligation(ctx, DENS, "Mesh::get_faces_number", [(q, F.v.num(q.ret) == 77, "not the number of triangles") for q in F.paths()], f)
    for f in fns("Mesh::get_densities_array"):
        res = []
        for n in range(1, top + 1):
            F, which = fixed(f, n)
            extra = [F.v.op(F.v.fresh(), ("a", F.par[1][2]))]
            k = F.par[2][2]
            for q in F.paths():
                for j in range(n):
                    got = areas(F, which, [q.cell(("arg", k), 4 * j)], extra)
                    res.append((q, None not in got and sorted(got) == list(range(j + 1)), "entry %d is not the area up to its triangle" % j))
                res.append((q, {o for o, v in q.stored(("arg", k))} == {4 * j for j in range(n)}, "not one entry for each triangle"))
        obligation(ctx, DENS, "Mesh::get_densities_array", res, f)
    for f in fns("Mesh::sample_point"):
        res = []
        for n in range(1, top + 1):
            F, which = fixed(f, n)
            A, T = F.A, F.T
            d = ordered(F, 3, n)
            root = ("arg", F.par[3][2])
            hit = set()
            try:
                qs = F.paths()
            except AnalysisError as e:
                if "decided by constants" not in str(e):
                    raise
                # everything the search may ask is known: it goes on
                res.append((Where(f), False, "the search among %d triangles goes on after 60 steps" % n))
                continue
            for q in qs:
                C = Case(F, q)
                ext = A.mul(F.inp(1)[0], A.of(d[n - 1]))
                read = [F.v.ptr(e[2]) for e in q.events if e[0] == "load"]
                bad = [o for r, o, vs in read if r == root and (vs or not 0 <= o < 4 * n)]
                res.append((q, not bad, "with %d triangles the areas are read at position %s" % (n, bad and bad[0] // 4)))
                ev = [e for e in q.events if e[0] == "sample"]
                k = which(ev[0][2][0]) if len(ev) == 1 else None
                if k is None or not 0 <= k < n:
                    res.append((q, False, "not one of the mesh's triangles is sampled"))
                    continue
                hit.add(k)
                ok = (k == n - 1 or "-" not in C.sign(A.sub(A.of(d[k]), ext))) and (k == 0 or "+" not in C.sign(A.sub(A.of(d[k - 1]), ext)))
                res.append((q, ok, "of %d triangles, number %d is sampled for a number that may fall in another" % (n, k)))
                a = ev[0][2]
                lo = A.of(d[k - 1]) if k else A.num(0)
                u = A.div(A.sub(ext, lo), A.sub(A.of(d[k]), lo))
                res.append((q, C.same([a[1], a[2]], [u, F.inp(2)[0]]), "the number is not stretched from its triangle's part to 0..1"))
                res.append((q, [F.v.ptr(x)[:2] for x in a[4:6]] == [(("arg", F.par[j][2]), 0) for j in (4, 5)], "the triangle's point and normal are not handed over"))
            res.append((q, hit == set(range(n)), "some of %d triangles are never sampled" % n))
        obligation(ctx, SAMPLE, "Mesh::sample_point", res, f)


# ------------------------------------------------------------------------------------------------ lights
def light(ctx, fns, new):
    def make(f):
        F = new(f, "AreaLight")
        F.lay = fields(F.p, "AreaLight")
        for m in ("objToWorld", "worldToObj"):
            for c in range(4):
                F.v.preset[("arg", 0), F.lay[m] + 4 * (12 + c), 4] = 1 if c == 3 else 0
        t = F.T.mk("mem", ("arg", 0), F.lay["invarea"], (), 4, 0)
        F.A.subst[t] = F.A.div(F.A.num(1), cell(F, "area"))     # the constructor establishes it
        return F

    def cell(F, name, k=0):
        return F.A.of(F.T.mk("mem", ("arg", 0), F.lay[name] + 4 * k, (), 4, 0))

    def image(F, v, point):
        A = F.A
        r = []
        for i in range(3):
            x = dot(A, [cell(F, "objToWorld", 4 * i + c) for c in range(3)], v)
            r.append(A.add(x, cell(F, "objToWorld", 4 * i + 3)) if point else x)
        return r

    def color(F):
        return [cell(F, "c", k) for k in range(3)]

    for f in fns("AreaLight::AreaLight"):
        F = new(f, "AreaLight")
        F.lay = fields(F.p, "AreaLight")
        A, T = F.A, F.T
        res = []
        for q in F.paths():
            base = [e for e in q.events if e[0] == "base"]
            args = [T.mk("ptr", ("arg", F.par[j][2]), 0, ()) for j in range(len(F.par))]
            ptrs = lambda t: F.v.ptr(t)[:2]
            ok = len(base) == 1 and ptrs(base[0][2][1]) == ptrs(args[1]) and ptrs(base[0][2][2]) == ptrs(args[2])
            res.append((q, ok, "the shape and its place are not handed to the asset"))
            ar = [e for e in q.events if e[0] == "area"]
            ok = len(ar) >= 1 and all(ptrs(e[2][0]) == ptrs(args[1]) and len(e[2]) == 2 and (ptrs(e[2][1]) == ptrs(args[2]) or ptrs(e[2][1]) == (("arg", 0), F.lay["objToWorld"])) for e in ar)
            got = q.cell(("arg", 0), F.lay["area"])
            res.append((q, ok and got == ar[0][3], "the area is not that of the shape in its place"))
            res.append((q, ok and F.same([q.cell(("arg", 0), F.lay["invarea"])], [A.div(A.num(1), A.of(ar[0][3]))]), "not the inverse of the area"))
            cd = q.cell(("arg", 0), F.lay["cd"], 8)
            de = [e for e in q.events if e[0] == "densities"]
            ok = len(de) == 1 and ptrs(de[0][2][0]) == ptrs(args[1]) and (ptrs(de[0][2][1]) == ptrs(args[2]) or ptrs(de[0][2][1]) == (("arg", 0), F.lay["objToWorld"])) and F.v.ptr(de[0][2][2]) == F.v.ptr(cd)
            res.append((q, ok, "the array is not filled with the shape's cumulative areas"))
            k = F.par[3][2]
            res.append((q, [q.cell(("arg", 0), F.lay["c"] + 4 * j) for j in range(3)] == [T.mk("mem", ("arg", k), 4 * j, (), 4, 0) for j in range(3)], "the colour is not kept"))
            n = room(F, q, cd)
            res.append((q, n, "the array has not one entry for each face"))
        obligation(ctx, LIGHT, "AreaLight::AreaLight", res, f)
    for f in fns("AreaLight::emissive_spectrum"):
        F = make(f)
        obligation(ctx, LIGHT, "AreaLight::emissive_spectrum", [(q, F.same(F.spectrum(q), color(F)), "not the colour of the light") for q in F.paths()], f)
    for cls, want in (("AreaLight", 1), ("Asset", 0)):
        for f in fns(cls + "::is_light"):
            F = new(f, cls)
            obligation(ctx, LIGHT, cls + "::is_light", [(q, F.v.num(q.ret) in ((want, -1) if want else (0,)), "lights are not told from other objects") for q in F.paths()], f)
    for f in fns("AreaLight::sample_surface"):
        F = make(f)
        A = F.A
        res = []
        for q in F.paths():
            C = Case(F, q)
            ok = sampled(F, q)
            res.append((q, ok, "the point is not sampled on the shape with the first two numbers"))
            p, n = [F.atom("@p%d" % k) for k in range(3)], [F.atom("@n%d" % k) for k in range(3)]
            d = sphere_point(C, F.inp(3)[0], F.inp(4)[0])
            out = F.out(5, q, 6)
            res.append((q, C.same(out[:3], image(F, p, True)), "the ray does not start at the sampled point"))
            ok = True
            for s in C.sign(dot(A, d, n)) - {"0"}:
                w = image(F, d if s == "+" else scale(A, A.num(-1), d), False)
                ok &= C.same(out[3:], w) or C.same(out[3:], unit(A, w))
            res.append((q, ok, "the direction is not one of the hemisphere over the surface"))
            res.append((q, C.same(F.out(6, q, 1), [A.div(cell(F, "invarea"), A.mul(A.num(2), A.pi))]), "the density is not 1/(2 pi area)"))
            res.append((q, C.same(F.spectrum(q), color(F)), "not the colour of the light"))
        obligation(ctx, LIGHT, "AreaLight::sample_surface", res, f)
    for f in fns("AreaLight::pdf", "Ray"):
        F = make(f)
        A = F.A
        obligation(ctx, LIGHT, "AreaLight::pdf (ray)", [(q, F.same([q.ret], [A.div(A.num(1), product(A, cell(F, "area"), A.num(2), A.pi))]), "the density is not 1/(2 pi area)") for q in F.paths()], f)
    for f in fns("AreaLight::pdf", "Vec3"):
        F = make(f)
        A, T = F.A, F.T
        res = []
        hitv = T.mk("call", "@hit", ())
        for q in F.paths():
            C = Case(F, q)
            ok, ray = towards(F, q)
            res.append((q, ok, "the light is not looked for from all distances in world space"))
            if not ok:
                continue
            o, d = F.inp(1, 3), F.inp(2, 3)
            res.append((q, C.same(ray, o + d), "the light is not looked for in the given direction"))
            if q.holds(hitv) is False:
                res.append((q, C.same([q.ret], [A.num(0)]), "a density although the light is not hit"))
            else:
                res.append((q, q.holds(hitv) is True and C.same([q.ret], [density(F, d, cell(F, "area"), length=True)]) or q.holds(hitv) is True and C.same([q.ret], [density(F, d, cell(F, "area"))]),
                            "the density is not the squared distance over cosine and area, in world space"))
        obligation(ctx, LIGHT, "AreaLight::pdf (direction)", res, f)
    for f in fns("AreaLight::sample_visible_surface"):
        F = make(f)
        A, T = F.A, F.T
        res = []
        p, n = [F.atom("@p%d" % k) for k in range(3)], [F.atom("@hn%d" % k) for k in range(3)]
        o = F.inp(3, 3)
        w = unit(A, [A.sub(x, y) for x, y in zip(image(F, p, True), o)])
        for q in F.paths():
            C = Case(F, q)
            res.append((q, sampled(F, q), "the point is not sampled on the shape with the two numbers"))
            ok, ray = towards(F, q)
            res.append((q, ok, "the visible point is not looked for from all distances in world space"))
            if not ok:
                continue
            res.append((q, C.same(ray, o + w), "the visible point is not looked for from the position towards the sampled point"))
            want = density(F, w, cell(F, "area"))
            black = C.same(F.spectrum(q), [A.num(0)] * 3)
            if any(b and infinite(F, C, t, want) for t, b in q.facts.items()):
                res.append((q, black and C.same(F.out(5, q, 1), [A.num(0)]), "light although the density is not finite"))
                continue
            res.append((q, C.same(F.out(4, q, 3), w), "the direction is not that of the sampled point"))
            res.append((q, F.out(6, q, 1) == [T.mk("call", "@dist", ())] or C.same(F.out(6, q, 1), [F.atom("@dist")]), "the distance is not that of the visible point"))
            res.append((q, C.same(F.out(5, q, 1), [want]), "the density is not the squared distance over cosine and area, in world space"))
            s = C.sign(A.mul(A.num(-1), dot(A, n, w)))
            ok = True
            for x in s - {"0"} or s:
                ok &= C.same(F.spectrum(q), color(F)) if x == "+" else black
            res.append((q, ok, "not the colour of the light in front, nothing behind"))
        obligation(ctx, LIGHT, "AreaLight::sample_visible_surface", res, f)


def room(F, q, cd):
    """the array was made for the number of faces"""
    n = F.T.node[cd]
    if n[0] != "call" and not (n[0] == "ptr" and n[1][0] == "val"):
        return False
    if n[0] == "ptr":
        n = F.T.node[n[1][1]]
    if n[0] != "call" or not re.match(r"malloc|calloc|operator new", n[1]):
        return False
    bytes_ = None
    for a in n[2]:
        c, r = F.v.lin(a)
        bytes_ = (c, r) if bytes_ is None else (0, {t: k * bytes_[0] for t, k in r.items()}) if not bytes_[1] and not c else (0, {t: k * c for t, k in bytes_[1].items()}) if not r else None
        if bytes_ is None:
            return False
    c, r = bytes_
    return c >= 0 and len(r) == 1 and all(F.T.node[t][:2] == ("call", "@faces") and k >= 4 for t, k in r.items())


def sampled(F, q):
    """one point of the light's own shape, from the first two numbers and its cumulative areas"""
    ev = [e for e in q.events if e[0] == "sample"]
    if len(ev) != 1:
        return False
    T, a = F.T, ev[0][2]
    m = lambda n: T.mk("mem", ("arg", 0), F.lay[n], (), 8, 0)
    this = a[0] == m("model") or F.v.ptr(a[0])[:2] == (("val", m("model")), 0)
    cd = a[3] == m("cd") or F.v.ptr(a[3])[:2] == (("val", m("cd")), 0)
    return this and cd and F.same(a[1:3], [F.inp(1)[0], F.inp(2)[0]])


def towards(F, q):
    """the one ray that is tested against the light"""
    ev = [e for e in q.events if e[0] == "intersect"]
    if len(ev) != 1:
        return False, None
    r = F.v.ptr(ev[0][2])
    far = F.v.num(ev[0][4])
    return r[0] == ("arg", 0) and far is not None and far >= 1e30, ev[0][3]


def density(F, w, area, length=False):
    A = F.A
    t, n = F.atom("@dist"), [F.atom("@hn%d" % k) for k in range(3)]
    d2 = A.mul(t, t)
    if length:
        d2 = A.mul(d2, dot(A, w, w))
    return A.div(d2, A.mul(A.absolute(dot(A, n, w)), area))
