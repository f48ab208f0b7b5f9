"""Composite materials: which of their functions take part, coloured by which texture, for every kind of function, side of
the surface and request; the shading frame; the parameters constructors keep."""
import itertools, re
from fractions import Fraction
import front
from front import AnalysisError
from common import *
from c09 import layout
from optics import Case, Dir
from c10 import Fn

ROOTS = (r"^(MultiBSDF|SingleBRDF|DualBsdf)::(value|sample_value|pdf)\(|^DualBsdf::gen_shading_matrix\(|^MultiBSDF::inherit_bdf\(|"
         r"^SingleBRDF::SingleBRDF\(|^ShadingSpace::(ShadingSpace|to_world|to_shading)\(|^Bump::bump\(")
KEEP = [r"is_visible\(", r"^(Vec3|Normal)::normalize", r"^normalize\(", r"get_dflt_texture", r"^Lambertian::Lambertian", r"::warning\(", r"::severe\("]
SUM, SAMPLE, DENS, FRAME, ADD = ("a material adds up the functions that take part, each with its own colour", "one of the functions that may take part is sampled",
                                 "the density is the mean over the functions that may take part", "the shading frame is that of the tangent and the normal",
                                 "a function keeps its place and its texture")
BRDF, BTDF, SPEC = 1, 2, 4
KINDS = (BRDF, BTDF, BRDF | SPEC, BTDF | SPEC)


class Mx(Fn):
    """one function of a composite material in one configuration"""

    def __init__(self, prog, p, f, types=(), match=None, index=None):
        super().__init__(prog, p, f, front.RGB, cut=False, unroll=64)
        self.v = Dir(prog, f, front.RGB, p.types, cut=False, unroll=64)
        self.A, self.T = self.v.A, self.v.T
        self.prog, self.kinds, self.match = p, types, match
        self.name = re.sub(r"\(\.irclone\)| const$", "", f.name).strip().split("(")[0]
        self.cls, self.meth = self.name.split("::")
        T, v = self.T, self.v
        self.at = {t: [] for t in set(x[0] for x in self.par)}
        for j, x in enumerate(self.par):
            if not j:
                continue
            self.at[x[0]].append(j)
        if self.cls in ("MultiBSDF", "SingleBRDF") and self.cls != self.meth:
            L = layout(p, self.cls)
            off = layout(p, "Bdf")["type"][2]
            multi = self.cls == "MultiBSDF"
            if multi:
                v.preset[("arg", 0), L["count"][2], 1] = len(types)
            base, tex = (L["bdfs"][2], L["diffuse"][2]) if multi else (L["bdf"][2], L["diffuse"][2])
            self.bdf, self.tex = [], []
            for i, t in enumerate(types):
                b = T.mk("mem", ("arg", 0), base + 8 * i, (), 8, 0)
                self.bdf.append(b)
                self.tex.append(T.mk("mem", ("arg", 0), tex + 8 * i, (), 8, 0))
                v.preset[("val", b), off, 1] = t
        if match is not None:
            v.given[self.par[self.at["bool"][0]][2]] = match
        v.index = index
        if self.at.get("ShadingSpace*") and self.at.get("HitPoint*"):
            self.frame(("arg", self.par[self.at["ShadingSpace*"][0]][2]))
            h = self.par[self.at["HitPoint*"][0]][2]
            self.hit = T.mk("ptr", ("arg", h), 0, ())
            self.nh = [self.A.of(T.mk("mem", ("arg", h), layout(p, "HitPoint")["normal_h"][2] + 4 * c, (), 4, 0)) for c in range(3)]

    def frame(self, root):
        L = layout(self.prog, "ShadingSpace")
        self.stn = [[self.A.of(self.T.mk("mem", root, L[x][2] + 4 * c, (), 4, 0)) for c in range(3)] for x in "stn"]

    def dot(self, a, b):
        A = self.A
        r = A.num(0)
        for x, y in zip(a, b):
            r = A.add(r, A.mul(x, y))
        return r

    def unit(self, a):
        r = self.A.sqrt(self.dot(a, a))
        return [self.A.div(x, r) for x in a]

    def shading(self, w):
        return self.unit([self.dot(w, e) for e in self.stn])

    def world(self, w):
        A = self.A
        s, t, n = self.stn
        return self.unit([A.add(A.add(A.mul(s[c], w[0]), A.mul(t[c], w[1])), A.mul(n[c], w[2])) for c in range(3)])

    def call(self, what, obj, *forms):
        return self.A.func("@" + what, [self.A.of(obj)] + list(forms))

    def spectrum(self, q):
        n = self.T.node[q.ret]
        if n[0] != "agg":
            raise AnalysisError("the spectrum %s returns" % self.name)
        d = dict(n[1])
        return self.pair(d[(0,)]) + [d[(1,)]]

    def total(self, idx, wo, wi):
        """the sum over these functions, coloured by their textures"""
        A = self.A
        r = [A.num(0)] * 3
        for i in idx:
            for k in range(3):
                r[k] = A.add(r[k], A.mul(self.call("value.%d" % k, self.bdf[i], *(wo + wi)), self.call("map.%d" % k, self.tex[i], A.of(self.hit))))
        return r

    def colour(self, i, k):
        return self.call("map.%d" % k, self.tex[i], self.A.of(self.hit))


def side(kind, front_, spec):
    """a function takes part on this side for this request"""
    return bool(kind & (BRDF if front_ else BTDF)) and (spec or not kind & SPEC)


def black(F):
    for k in range(3):
        F.A.subst[F.T.mk("mem", ("g", "SPECTRUM_BLACK"), 4 * k, (), 4, 0)] = F.A.num(0)


def sides(C, F, a, b):
    return [x == "+" for x in C.sign(F.A.mul(F.dot(a, F.nh), F.dot(b, F.nh))) - {"0"}]


def value(F, q, C):
    A = F.A
    wo, wi = F.inp(F.at["Vec3*"][0], 3), F.inp(F.at["Vec3*"][1], 3)
    got = F.spectrum(q)
    ok = True
    for f in sides(C, F, wo, wi):
        idx = [i for i, t in enumerate(F.kinds) if side(t, f, F.match)]
        ok &= C.same(got, F.total(idx, F.shading(wo), F.shading(wi)))
    yield SUM, ok, "the sum is not over exactly the functions that take part, each with its own texture"


def pdf(F, q, C):
    A = F.A
    wo, wi = F.inp(F.at["Vec3*"][0], 3), F.inp(F.at["Vec3*"][1], 3)
    idx = [i for i, t in enumerate(F.kinds) if F.match or not t & SPEC]
    r = A.num(0)
    for i in idx:
        r = A.add(r, F.call("pdf", F.bdf[i], *(F.shading(wo) + F.shading(wi))))
    if idx:
        r = A.div(r, A.num(len(idx)))
    yield DENS, C.same([q.ret], [r]), "not the mean of the densities of the functions that may take part"


def sample(F, q, C):
    A, T = F.A, F.T
    wo = F.inp(F.at["Vec3*"][0], 3)
    r0, r1, r2 = [F.inp(j)[0] for j in F.at["float"][:3]]
    W, P, M = F.at["Vec3*"][1], F.at["float*"][0], F.at["bool*"][0]
    got, dens, w = F.spectrum(q), F.out(P, q, 1), F.out(W, q, 3)
    may = [i for i, t in enumerate(F.kinds) if F.match or not t & SPEC]
    if not may:
        yield DENS, C.same(dens, [A.num(0)]), "nothing can be sampled, yet the density is not zero"
        yield SUM, C.same(got, [A.num(0)] * 3), "nothing can be sampled, yet light is scattered"
        return
    picks = [e[1] for e in q.events if e[0] == "index"]
    if F.cls == "MultiBSDF" and len(may) > 1 or picks:
        yield SAMPLE, len(picks) == 1 and C.same(picks, [A.mul(r0, A.num(len(may)))]), "the first random number does not choose evenly among the functions that may take part"
        if not picks:
            return
        i = may[min(F.v.index, len(may) - 1)]
    else:
        i = may[0]
    o = F.shading(wo)
    args = o + [r1, r2]
    drawn = [F.call("sample_value.wi%d" % c, F.bdf[i], *args) for c in range(3)]
    length = A.sqrt(F.dot(drawn, drawn))
    ev = [e for e in q.events if e[0] == "@" and e[2] == "sample_value"]
    yield SAMPLE, len(ev) == 1 and ev[0][3][0] == F.bdf[i] and C.same(ev[0][3][1:], args), "not the chosen function is sampled for the outgoing direction in the shading frame with the other two random numbers"
    if C.sign(length, F.dot(drawn, drawn)) == {"0"} or all(C.sign(x) == {"0"} for x in drawn):
        yield DENS, C.same(dens, [A.num(0)]), "no direction was drawn, yet the density is not zero"
        return
    u = F.unit(drawn)
    wi = F.world(u)
    yield SAMPLE, C.same(w, wi), "the direction returned is not the sampled one in world space"
    spec = bool(F.kinds[i] & SPEC)
    flag = q.cell(("arg", F.par[M][2]), 0, 1)
    told = F.v.num(flag)
    if told is None and F.v.boolean(flag):
        told = q.holds(flag)
    yield SAMPLE, told is not None and bool(told) == spec, "the caller is told wrongly whether the sampled function is a mirror"
    n = A.num(len(may))
    if spec or F.cls == "SingleBRDF":
        want = [A.mul(F.call("sample_value.%d" % k, F.bdf[i], *args), F.colour(i, k)) for k in range(3)]
        yield SUM, C.same(got, want), "not the value of the sampled function with its own texture"
        yield DENS, C.same(dens, [A.div(F.call("sample_value.float", F.bdf[i], *args), n)]), "not the density of the sampled function over the number that may take part"
        return
    okv = okp = True
    for f in sides(C, F, wo, wi):
        idx = [j for j, t in enumerate(F.kinds) if side(t, f, False)]
        okv &= C.same(got, F.total(idx, o, u))
        r = A.num(0)
        for j in idx:
            r = A.add(r, F.call("pdf", F.bdf[j], *(o + u)))
        okp &= C.same(dens, [A.div(r, n)])
    yield SUM, okv, "the sum is not over exactly the functions on the side of the sampled direction, each with its own texture"
    yield DENS, okp, "not the mean of the densities of the functions on the side of the sampled direction"


def dual(F, q, C):
    """everything is left to one of the two materials, by the mask"""
    A, T = F.A, F.T
    L = layout(F.prog, "DualBsdf")
    ev = [e for e in q.events if e[0] == "@"]
    vis = [e for e in ev if e[2] == "is_visible"]
    calls = [e for e in ev if e[2] != "is_visible"]
    t = None
    for f, b in q.facts.items():
        n = T.node[f]
        x, pos = F.v.cond(f)
        for y in ([f] + [k for k in n[1:] if isinstance(k, int)]):
            if T.node[y][0] == "call" and T.node[y][1] == "@is_visible":
                t = b if y == f or n[0] != "eq" else not b
    if len(vis) != 1 or len(calls) != 1 or t is None:
        yield SUM, False, "not exactly one of the two materials is asked, by the mask"
        return
    mask = vis[0][3]
    okm = T.node[mask[0]][0] == "ptr" and T.node[mask[0]][1] == ("arg", 0) and T.node[mask[0]][2] == L["mask"][2] and mask[1] == hit(F)
    yield SUM, okm, "the mask is not asked about this hit"
    e = calls[0]
    obj = T.mk("mem", ("arg", 0), L["first" if t else "second"][2], (), 8, 0)
    want = []
    outs = ("float*", "bool*")
    seen = 0
    for j, (ty, how, k) in enumerate(F.par):
        if j == 0 or ty in outs:
            continue
        if ty == "Vec3*":
            seen += 1
            if F.meth == "sample_value" and seen == 2:
                continue
            want += F.arg(j, 3)
        elif how == "ptr":
            want.append(T.mk("ptr", ("arg", k), 0, ()))
        else:
            want += F.arg(j)
    ok = e[2] == F.meth and e[3][0] == obj and list(e[3][1:]) == want
    yield SUM, ok, "not the material the mask selects is asked the same question"
    if F.meth == "value" or F.meth == "sample_value":
        yield SUM, C.same(F.spectrum(q), [A.of(T.mk("call", "@%s.%d" % (F.meth, k), e[3])) for k in range(3)]), "the answer of the material is not passed on"
    if F.meth == "pdf":
        yield SUM, C.same([q.ret], [A.of(T.mk("call", "@pdf", e[3]))]), "the answer of the material is not passed on"
    if F.meth == "sample_value":
        W, P, M = F.at["Vec3*"][1], F.at["float*"][0], F.at["bool*"][0]
        want = [T.mk("call", "@sample_value.wi%d" % c, e[3]) for c in range(3)] + [T.mk("call", "@sample_value.float", e[3])]
        yield SUM, F.out(W, q, 3) + F.out(P, q, 1) == want and q.cell(("arg", F.par[M][2]), 0, 1) == T.mk("call", "@sample_value.bool", e[3]), "the sampled direction, density or kind is not passed on"


def hit(F):
    return F.T.mk("ptr", ("arg", F.par[F.at["HitPoint*"][0]][2]), 0, ())


def inherit(F, q, C, n):
    """adding a function to a material that has n"""
    T = F.T
    L = layout(F.prog, "MultiBSDF")
    add, tex = ("arg", F.par[1][2]), F.par[2][2]
    b = q.cell(("arg", 0), L["bdfs"][2] + 8 * n, 8)
    d = q.cell(("arg", 0), L["diffuse"][2] + 8 * n, 8)
    c = q.cell(("arg", 0), L["count"][2], 1)
    ok = T.node[b][:3] == ("ptr", add, 0) and F.v.num(c) == n + 1
    given = T.mk("ptr", ("arg", tex), 0, ())
    null = [x for t, x in q.facts.items() if T.node[t][0] == "eq" and given in T.node[t][1:]]
    m = T.node[d]
    ok &= d == given if null == [False] else m[0] == "call" and "get_dflt_texture" in str(m) if null == [True] else False
    for k in range(n):
        ok &= q.cell(("arg", 0), L["bdfs"][2] + 8 * k, 8) == T.mk("mem", ("arg", 0), L["bdfs"][2] + 8 * k, (), 8, 0)
        ok &= q.cell(("arg", 0), L["diffuse"][2] + 8 * k, 8) == T.mk("mem", ("arg", 0), L["diffuse"][2] + 8 * k, (), 8, 0)
    yield ADD, ok, "the function is not added after the others with its texture, or with the default one"


def frame(F, q, C):
    A, T = F.A, F.T
    if F.meth == "ShadingSpace":
        L, H = layout(F.prog, "ShadingSpace"), layout(F.prog, "HitPoint")
        h = F.par[1][2]
        s, n = [[A.of(T.mk("mem", ("arg", h), H[x][2] + 4 * c, (), 4, 0)) for c in range(3)] for x in ("dpdu", "normal_h")]
        at = lambda x: [q.cell(("arg", 0), L[x][2] + 4 * c) for c in range(3)]
        yield FRAME, C.same(at("s"), s) and C.same(at("n"), n), "the first axis is not the tangent or the last not the normal"
        yield FRAME, C.same(at("t"), F.unit(cross(A, n, s))), "the second axis is not the normal across the tangent"
    elif F.meth == "bump":
        L, H = layout(F.prog, "ShadingSpace"), layout(F.prog, "HitPoint")
        h, m, o = [F.par[k][2] for k in (1, 2, 3)]
        s, n = [[A.of(T.mk("mem", ("arg", h), H[x][2] + 4 * c, (), 4, 0)) for c in range(3)] for x in ("dpdu", "normal_h")]
        at = lambda x: [q.cell(("arg", m), L[x][2] + 4 * c) for c in range(3)]
        yield FRAME, C.same(at("s"), s) and C.same(at("n"), n) and C.same(at("t"), F.unit(cross(A, n, s))), "without a bump map the frame is not that of the hit"
        yield FRAME, C.same(F.out(3, q, 3), n), "without a bump map the shading normal is not the normal of the hit"
    else:
        F.frame(("arg", 0))
        w = F.inp(1, 3)
        want = F.world(w) if F.meth == "to_world" else F.shading(w)
        yield FRAME, C.same(F.result(q), want), "not the coordinates in the other frame"


def cross(A, a, b):
    m = lambda i, j: A.sub(A.mul(a[i], b[j]), A.mul(a[j], b[i]))
    return [m(1, 2), m(2, 0), m(0, 1)]


def configurations(F0, tier):
    cls, meth = F0
    if cls == "SingleBRDF":
        for t in (BRDF, BRDF | SPEC):
            for m in (0, 1):
                yield (t,), m, None
        return
    # a material that is sampled has at least one function
    for n in range(meth == "sample_value", 4 if tier == "quick" else 5):
        for ts in itertools.product(KINDS, repeat=n):
            for m in (0, 1):
                if meth != "sample_value":
                    yield ts, m, None
                    continue
                k = len([t for t in ts if m or not t & SPEC])
                for x in range(k + 1 if k else 1):
                    yield ts, m, x


def run(ctx, prog):
    p, fs = flat(ROOTS, keep=KEEP, cfg=front.RGB)
    seen = set()
    for f in fs:
        name = re.sub(r"\(\.irclone\)| const$", "", f.name).strip().split("(")[0]
        cls, meth = name.split("::")
        if cls == "ShadingSpace" and meth == cls and len(f.d["ditypes"]) < 3:
            continue
        seen.add(name)
        ctx.count("functions")
        if cls in ("MultiBSDF", "SingleBRDF") and meth in ("value", "pdf", "sample_value"):
            h = {"value": value, "pdf": pdf, "sample_value": sample}[meth]
            for ts, m, x in configurations((cls, meth), ctx.tier):
                F = Mx(prog, p, f, ts, m, x)
                F.v.preset = dict(F.v.preset)
                black(F)
                paths(ctx, F, h, name)
                ctx.count("configurations")
        elif cls == "MultiBSDF":
            for n in range(0, 5):
                F = Mx(prog, p, f, (BRDF,) * n)
                paths(ctx, F, lambda F, q, C: inherit(F, q, C, n), name)
        elif cls == "DualBsdf":
            F = Mx(prog, p, f)
            paths(ctx, F, dual, name)
        elif cls in ("ShadingSpace", "Bump"):
            F = Mx(prog, p, f)
            paths(ctx, F, frame, name)
    want = ["MultiBSDF::value", "MultiBSDF::sample_value", "MultiBSDF::pdf", "SingleBRDF::value", "SingleBRDF::sample_value", "SingleBRDF::pdf", "MultiBSDF::inherit_bdf",
            "DualBsdf::value", "DualBsdf::sample_value", "DualBsdf::pdf", "DualBsdf::gen_shading_matrix", "ShadingSpace::ShadingSpace", "ShadingSpace::to_world",
            "ShadingSpace::to_shading", "Bump::bump"]
    ctx.need(all(w in seen for w in want), "the functions %s" % [w for w in want if w not in seen])


def paths(ctx, F, h, name):
    S = F.paths()
    if not S:
        raise AnalysisError("no path of " + name)
    for q in S:
        ctx.count("paths")
        C = Case(F, q)
        for rule, ok, why in h(F, q, C):
            cfg = "" if not F.kinds and F.match is None else " (kinds %s%s)" % (",".join({1: "BRDF", 2: "BTDF", 5: "mirror", 6: "refraction"}[t] for t in F.kinds) or "none", ", mirrors wanted" if F.match else "")
            ctx.ob(rule, name, ok, q.where(), "%s: %s%s" % (name, why, cfg))
