"""Value numbering over the scattering functions, the microfacet distributions, the Fresnel equations and the shading
frame: on every path the value, the density and the sampled direction are compared, as formulas, with those of the model
the class is named after.  Directions are arbitrary unit vectors in polar coordinates; what a conditional establishes about
signs selects the case of the model.  Composite materials are decided for every kind of function, side of the surface and
request, from the paths of their loops."""
import re
from fractions import Fraction
import front, ir, vn, alg
from front import AnalysisError
from common import *
from c09 import layout
from c10 import Fn
from optics import Mat, Dir, Case
import composite

LEVEL = "other"
ASSUMES = ["rounding is not modelled: values are compared as real functions, decimal constants to six digits",
           "directions given to a scattering function have length one, roughness is between 0 and 1, refraction indices are positive",
           "Conductor::eval is given a cosine that is not negative"]
ROOTS = (r"^(Bdf|Lambertian|OrenNayar|Reflection|ConductorReflection|DielectricReflection|Refraction)::(value|sample_value|pdf)\(|"
         r"^Microfacet[RT]::(value|sample_value|pdf)\(|^(Conductor|Dielectric)::eval\(|^(MicrofacetDist|Blinn|Beckmann|GGXiso|GGXaniso)::(D|G|pdf|sample_wh)\(|"
         r"^(OrenNayar|Blinn|Beckmann|GGXiso|GGXaniso|ConductorReflection|DielectricReflection|Refraction|Dielectric|Conductor|Lambertian|Reflection|MicrofacetR|MicrofacetT)::(OrenNayar|Blinn|Beckmann|GGXiso|GGXaniso|ConductorReflection|DielectricReflection|Refraction|Dielectric|Conductor|Lambertian|Reflection|MicrofacetR|MicrofacetT)\(")
KEEP = [r"::eval\(float\)", r"^Microfacet[RT]::value", r"^refract\(", r"^(Vec3|Normal)::normalize", r"^normalize\("]


class Dn(Fn):
    def __init__(self, prog, p, f, cfg, **kw):
        super().__init__(prog, p, f, cfg, **kw)
        self.v = Dir(prog, f, cfg, p.types, **kw)
        self.A, self.T = self.v.A, self.v.T

    def spectrum(self, q):
        T = self.T
        n = T.node[q.ret]
        if n[0] == "agg":
            d = dict(n[1])
            return self.pair(d[(0,)]) + [d[(1,)]]
        raise AnalysisError("the spectrum %s returns" % self.f.name)


def run(ctx):
    prog = program(front.RGB)
    p, fs = flat(ROOTS, keep=KEEP, cfg=front.RGB)
    done = {}
    for f in fs:
        name = re.sub(r"\(\.irclone\)| const$", "", f.name).strip().split("(")[0]
        c, m = name.split("::")
        if m.startswith("operator") or m.startswith("~"):
            continue
        if c == m and any(re.search(r"\b%s\b" % c, x) for x in f.d["ditypes"][2:]):
            continue    # copying
        h = CHECKS.get(name)
        if h is None:
            continue
        F = Dn(prog, p, f, front.RGB, cut=False, unroll=64)
        F.p, F.types, F.cls = p, p.types, c
        h_setup(F)
        ctx.count("functions")
        S = F.paths()
        if not S:
            raise AnalysisError("no path of " + name)
        for q in S:
            ctx.count("paths")
            C = Case(F, q)
            for r in h(F, q, C) or ():
                ok, what, why = r[:3]
                ctx.ob(what, r[3] if len(r) > 3 else name, ok, q.where(), "%s: %s" % (name, why))
        done[name] = 1
    ctx.need(all(n in done for n in CHECKS if "*" not in n), "the functions %s" % sorted(set(x for x in CHECKS if "*" not in x) - set(done)))
    composite.run(ctx, prog)
    ctx.at_least(VAL, 20), ctx.at_least(PDF, 12), ctx.at_least(DIR, 8), ctx.at_least(CTR, 12)


VAL, PDF, DIR, CTR = "the value is that of the model", "the density is that of the model", "the sampled direction is that of the model", "the parameters of the model are kept"


def h_setup(F):
    """unit vectors, constants and parameters"""
    A, T = F.A, F.T
    F.vec, F.par_form = {}, {}
    for j, (t, how, k) in enumerate(F.par):
        if j and t == "Vec3*" and "const Vec3*" in F.f.d["ditypes"][j + 1].replace("Vec3 const*", "const Vec3*"):
            xs, s = A.unit(j)
            for c, x in enumerate(F.arg(j, 3)):
                A.subst[x] = xs[c]
            F.vec[j] = (xs, s)
    name = F.f.name
    for j, (t, how, k) in enumerate(F.par):
        if t == "float" and ("::eval(" in name or "::sample_" in name):
            A.within(F.inp(j)[0], name.startswith("Dielectric::eval"))
    for x in ("eta_i", "eta_t"):
        if x in layout(F.p, F.cls) and "(" + F.cls not in name:
            (m, c), = member(F, x)[0].items()
            A.nonneg.add(m[0][0])
    if "::" + F.cls not in name:
        dist_params(F)
    if re.match(r"Microfacet[RT]::sample_value", name):
        half_unit(F)
    for nm in ("SPECTRUM_BLACK",):
        for k in range(3):
            A.subst[T.mk("mem", ("g", nm), 4 * k, (), 4, 0)] = A.num(0)


def member(F, name, k=0, cls=None):
    lay = layout(F.p, cls or F.cls)
    if name not in lay:
        raise AnalysisError("member %s of %s" % (name, cls or F.cls))
    return F.A.of(F.T.mk("mem", ("arg", 0), lay[name][2] + 4 * k, (), 4, 0))


def spectrum_of(F, name):
    """the three components of a constant"""
    for link, g in F.p.globals.items():
        if g.get("name") == name or link == name:
            return [F.A.of(F.T.mk("mem", ("g", link), 4 * k, (), 4, 0)) for k in range(3)]
    raise AnalysisError("constant " + name)


def dot(A, a, b):
    s = A.num(0)
    for x, y in zip(a, b):
        s = A.add(s, A.mul(x, y))
    return s


def scale(A, k, a):
    return [A.mul(k, x) for x in a]


def unit(A, a):
    r = A.sqrt(dot(A, a, a))
    return [A.div(x, r) for x in a]


def vkey(A, xs):
    return xs


def product(A, *xs):
    r = A.num(1)
    for x in xs:
        r = A.mul(r, x)
    return r


def cases(C, rule, got, by, why, *forms):
    """the result is that of the model for every sign the path allows"""
    s = C.sign(*forms)
    want = [by[x] for x in s if x in by]
    ok = all(C.same(got, w) for w in want) if want else any(C.same(got, w) for w in by.values())
    return ok, rule, why


# ------------------------------------------------------------------------------------------------ scattering functions
def black(A):
    return [A.num(0)] * 3


def lambert(F, q, C):
    yield C.same(F.spectrum(q), spectrum_of(F, "Lambertian::DIFFUSE")), VAL, "not the constant 1/pi"


def oren_ctor(F, q, C):
    A, T = F.A, F.T
    s2 = A.mul(F.inp(1)[0], F.inp(1)[0])
    lay = layout(F.p, "OrenNayar")
    got = [q.cell(("arg", 0), lay[n][2]) for n in "AB"]
    a = A.sub(A.num(1), A.div(s2, A.mul(A.num(2), A.add(s2, A.num(Fraction("0.33"))))))
    b = A.div(A.mul(A.num(Fraction("0.45")), s2), A.add(s2, A.num(Fraction("0.09"))))
    yield C.same(got, [a, b]), CTR, "A and B are not those of Oren and Nayar"


def oren(F, q, C):
    A = F.A
    (o, so), (i, si) = F.vec[1], F.vec[2]
    a, b = member(F, "A"), member(F, "B")
    d = spectrum_of(F, "OrenNayar::DIFFUSE")
    got = F.spectrum(q)
    if C.sign(so) == {"0"} or C.sign(si) == {"0"}:
        yield C.same(got, scale(A, a, d)), VAL, "a direction along the normal"
        return
    cosphi = A.div(A.add(A.mul(o[0], i[0]), A.mul(o[1], i[1])), A.mul(so, si))
    ao, ai = A.absolute(o[2]), A.absolute(i[2])
    ok = True
    for up in C.sign(A.sub(ai, ao)):
        p = C.sign(cosphi)
        # the two cases agree where the cosine is zero
        for pos in p - {"0"} if p - {"0"} else p:
            def val(inner):
                sa, tb = (so, A.div(si, ai)) if inner else (si, A.div(so, ao))
                m = cosphi if pos == "+" else A.num(0)
                return scale(A, A.add(a, product(A, b, m, sa, tb)), d)
            if up == "0":
                ok &= C.same(got, val(True)) or C.same(got, val(False))
            else:
                ok &= C.same(got, val(up == "+"))
    yield ok, VAL, "not A + B max(0, cos of the azimuths' difference) sin(alpha) tan(beta)"


def cosine_pdf(F, q, C):
    A = F.A
    (o, so), (i, si) = F.vec[1], F.vec[2]
    pdf = A.div(A.absolute(i[2]), A.pi)
    yield cases(C, PDF, [q.ret], {"+": [pdf], "-": [A.num(0)]}, "not |cos|/pi on the side of the outgoing direction", A.mul(o[2], i[2]))


def cosine_sample(F, q, C):
    A, T = F.A, F.T
    o, so = F.vec[1]
    r0, r1 = F.inp(3)[0], F.inp(4)[0]
    w = [A.of(x) for x in F.out(2, q, 3)]
    r = A.sqrt(r1)
    s, c = polar(A, A.mul(A.num(2), A.mul(A.pi, r0)))
    z = A.sqrt(A.sub(A.num(1), r1))
    side = C.sign(o[2])
    ok = C.same(w[:2], [A.mul(r, c), A.mul(r, s)])
    for x in side - {"0"}:
        ok &= C.same(w[2:], [z if x == "+" else A.mul(A.num(-1), z)])
    yield ok, DIR, "not distributed by the cosine on the side of the outgoing direction"
    yield C.same(F.out(5, q, 1), [A.div(z, A.pi)]), PDF, "the density of a sample is not |cos|/pi"
    yield evaluated(F, q, C, "value", 2), VAL, "the value of a sample is not that of the two directions"


def polar(A, angle):
    k = A.key(angle)
    s, c = A.atom(("sin", k)), A.atom(("cos", k))
    A.pyth[s] = c
    A.bounded |= {s, c}
    return A.var(("sin", k)), A.var(("cos", k))


def evaluated(F, q, C, what, j):
    """the spectrum returned is what the function returns for the outgoing and the sampled direction"""
    A, T = F.A, F.T
    got = F.spectrum(q)
    n = [T.node[x] for x in got]
    if not all(x[0] == "call" and x[1] == "@%s.%d" % (what, k) for k, x in enumerate(n)):
        return False
    a = n[0][2]
    o = F.arg(1, 3)
    w = [q.cell(("arg", F.par[j][2]), 4 * c) for c in range(3)]
    this = T.node[a[0]]
    return this[0] == "ptr" and this[1] == ("arg", 0) and this[2] == 0 and C.same(a[1:4], [A.of(x) for x in o]) and C.same(a[4:7], [A.of(x) for x in w])


def fresnel_dielectric(F, C, ci, ei, et, got):
    """reflected part for a cosine that is not negative; None on total internal reflection"""
    A = F.A
    sin2 = A.sub(A.num(1), A.mul(ci, ci))
    st2 = A.mul(A.mul(A.div(ei, et), A.div(ei, et)), sin2)
    st = A.mul(A.div(ei, et), A.sqrt(sin2))
    ct = A.sqrt(A.sub(A.num(1), st2))
    perp = A.div(A.sub(A.mul(ei, ci), A.mul(et, ct)), A.add(A.mul(ei, ci), A.mul(et, ct)))
    par = A.div(A.sub(A.mul(et, ci), A.mul(ei, ct)), A.add(A.mul(et, ci), A.mul(ei, ct)))
    r = A.div(A.add(A.mul(perp, perp), A.mul(par, par)), A.num(2))
    s = C.sign(A.sub(A.num(1), st), A.sub(A.num(1), st2))
    return r, s, ct


def indices(F, C, z, cls=None, off=None):
    """[(refraction index on the side of the direction, on the other side)] for the signs of its cosine"""
    A = F.A
    lay = layout(F.p, F.cls)
    a, b = member(F, "eta_i"), member(F, "eta_t")
    s = C.sign(z)
    return [(x, a, b) if x == "+" else (x, b, a) for x in s - {"0"}]


def dielectric(F, q, C):
    A = F.A
    cos = F.inp(1)[0]
    got = F.spectrum(q)
    ok = True
    for x, ei, et in indices(F, C, cos):
        ci = cos if x == "+" else A.mul(A.num(-1), cos)
        r, s, ct = fresnel_dielectric(F, C, ci, ei, et, got)
        if s & {"+"}:
            ok &= C.same(got, [r] * 3)
        if s & {"-"}:
            ok &= C.same(got, [A.num(1)] * 3)
        if s == {"0"}:
            ok &= C.same(got, [r] * 3) or C.same(got, [A.num(1)] * 3)
    yield ok, VAL, "not the unpolarised Fresnel reflection of a dielectric"


def conductor_value(A, eta, sq, c):
    """Fresnel reflection of one component of a conductor"""
    e2 = product(A, A.num(2), eta, c)
    c2 = A.mul(c, c)
    perp = A.div(A.add(A.sub(sq, e2), c2), A.add(A.add(sq, e2), c2))
    t = A.mul(sq, c2)
    par = A.div(A.add(A.sub(t, e2), A.num(1)), A.add(A.add(t, e2), A.num(1)))
    return A.div(A.add(perp, par), A.num(2))


def conductor(F, q, C):
    A = F.A
    c = F.inp(1)[0]
    want = []
    for k in range(3):
        n, ab = member(F, "refraction_index", k), member(F, "absorption", k)
        want.append(conductor_value(A, n, A.add(A.mul(n, n), A.mul(ab, ab)), c))
    yield C.same(F.spectrum(q), want), VAL, "not the unpolarised Fresnel reflection of a conductor"


def mirror_dir(F, q, C):
    A = F.A
    o, so = F.vec[1]
    yield C.same(F.out(2, q, 3), [A.mul(A.num(-1), o[0]), A.mul(A.num(-1), o[1]), o[2]]), DIR, "not the mirrored direction"
    yield C.same(F.out(5, q, 1), [A.num(1)]), PDF, "a mirror reflects into one direction with certainty"


def conductor_mirror(F, q, C):
    A = F.A
    yield from mirror_dir(F, q, C)
    o, so = F.vec[1]
    got = F.spectrum(q)

    def val(c):
        return [A.div(conductor_value(A, member(F, "ior", k), member(F, "fresnel", k), c), A.absolute(o[2])) for k in range(3)]
    s = C.sign(o[2])
    ok = C.same(got, val(A.absolute(o[2])))
    if not ok and "-" in s and C.same(got, val(o[2])):
        yield False, VAL, "seen from behind the cosine keeps its sign: more light is reflected than arrives", "ConductorReflection::sample_value seen from behind"
    else:
        yield ok, VAL, "not the Fresnel reflection divided by the cosine"


def dielectric_mirror(F, q, C):
    A = F.A
    yield from mirror_dir(F, q, C)
    o, so = F.vec[1]
    got = F.spectrum(q)
    ok = True
    az = A.absolute(o[2])
    for x, ei, et in indices(F, C, o[2]):
        r, s, ct = fresnel_dielectric(F, C, az, ei, et, got)
        if "+" in s:
            ok &= C.same(got, [A.div(r, az)] * 3)
        if "-" in s:
            ok &= C.same(got, [A.div(A.num(1), az)] * 3)
        if s == {"0"}:
            ok &= C.same(got, [A.div(r, az)] * 3) or C.same(got, [A.div(A.num(1), az)] * 3)
    yield ok, VAL, "not the Fresnel reflection divided by the cosine"


def refraction(F, q, C):
    A = F.A
    o, so = F.vec[1]
    got, pdf, w = F.spectrum(q), F.out(5, q, 1), F.out(2, q, 3)
    az = A.absolute(o[2])
    okv = okd = okp = True
    for x, ei, et in indices(F, C, o[2]):
        r, s, ct = fresnel_dielectric(F, C, az, ei, et, got)
        eta = A.div(ei, et)
        if "+" in s:
            okv &= C.same(got, [A.div(product(A, A.sub(A.num(1), r), eta, eta), ct)] * 3)
            okp &= C.same(pdf, [A.num(1)])
            okd &= C.same(w, [A.mul(A.num(-1), A.mul(eta, o[0])), A.mul(A.num(-1), A.mul(eta, o[1])), A.mul(A.num(-1), ct) if x == "+" else ct])
        if "-" in s:
            okv &= C.same(got, black(A))
            okp &= C.same(pdf, [A.num(0)])
            okd &= not q.stored(("arg", F.par[2][2]))
    yield okd, DIR, "not the direction of Snell's law, or a direction is set on total internal reflection"
    yield okp, PDF, "the density is not one, or not zero on total internal reflection"
    yield okv, VAL, "not the transmitted part over the cosine, scaled by the squared ratio of the indices"


def specular_value(F, q, C):
    yield C.same(F.spectrum(q), black(F.A)), VAL, "a mirror has no value for two given directions"


def specular_pdf(F, q, C):
    yield C.same([q.ret], [F.A.num(0)]), PDF, "a mirror has no density for two given directions"


# ------------------------------------------------------------------------------------------------ microfacets
def fn(F, what, obj, *forms):
    """the atom that stands for a virtual call with these arguments"""
    A = F.A
    return A.func("@" + what, [A.of(obj)] + list(forms))


def field(F, name):
    """the object a pointer member points at"""
    return F.T.mk("mem", ("arg", 0), layout(F.p, F.cls)[name][2], (), 8, 0)


def embedded(F, name):
    return F.T.mk("ptr", ("arg", 0), layout(F.p, F.cls)[name][2], ())


def vanishes(C, xs):
    s = dot(C.A, xs, xs)
    return all(C.sign(x) == {"0"} for x in xs) or C.sign(s, C.A.sqrt(s)) == {"0"}


def grazing(C, o, i):
    return {"0"} in (C.sign(o[2]), C.sign(i[2]), C.sign(C.A.mul(o[2], i[2])))


def micro_r(F, q, C):
    A = F.A
    (o, so), (i, si) = F.vec[1], F.vec[2]
    got = F.spectrum(q)
    h = [A.add(x, y) for x, y in zip(o, i)]
    if grazing(C, o, i) or vanishes(C, h):
        yield C.same(got, black(A)), VAL, "a grazing direction or no half vector gives something"
        return
    h = unit(A, h)
    d = field(F, "distribution")
    k = A.div(A.mul(fn(F, "D", d, *h), fn(F, "G", d, *(o + i))), product(A, A.num(4), A.absolute(o[2]), A.absolute(i[2])))
    fr = [fn(F, "eval.%d" % c, field(F, "fresnel"), dot(A, i, h)) for c in range(3)]
    yield cases(C, VAL, got, {"+": [A.mul(x, k) for x in fr], "-": black(A)}, "not F D G / (4 cos cos) on the same side, nothing on different sides", A.mul(o[2], i[2]))


def micro_r_pdf(F, q, C):
    A = F.A
    (o, so), (i, si) = F.vec[1], F.vec[2]
    h = [A.add(x, y) for x, y in zip(o, i)]
    if vanishes(C, h):
        yield C.same([q.ret], [A.num(0)]), PDF, "no half vector"
        return
    h = unit(A, h)
    p = A.div(fn(F, "pdf", field(F, "distribution"), *(o + h)), A.mul(A.num(4), dot(A, o, h)))
    yield cases(C, PDF, [q.ret], {"+": [p], "-": [A.num(0)]}, "not the density of the half vector over 4 cos", A.mul(o[2], i[2]))


def sampled_wh(F, q, unit_name="h"):
    A, T = F.A, F.T
    r = [e for e in q.events if e[0] == "@" and e[2] == "sample_wh"]
    return r[0] if len(r) == 1 else None


def half(F, q, C):
    """half vector drawn from the distribution (it has length one), and whether it was drawn rightly"""
    A, T = F.A, F.T
    e = sampled_wh(F, q)
    if e is None:
        return None, False
    o = F.vec[1][0]
    t = [T.mk("call", "@sample_wh.wi%d" % c, e[3]) for c in range(3)]
    a = e[3]
    ok = a[0] == field(F, "distribution") and C.same(a[1:4], o) and C.same(a[4:6], [F.inp(3)[0], F.inp(4)[0]])
    return [A.of(x) for x in t], ok


def half_unit(F):
    """what sample_wh returns has length one"""
    A, T = F.A, F.T
    xs, s = A.unit("h")
    args = (field(F, "distribution"),) + tuple(F.arg(1, 3)) + tuple(F.arg(3)) + tuple(F.arg(4))
    for c in range(3):
        A.subst[T.mk("call", "@sample_wh.wi%d" % c, args)] = xs[c]


def micro_r_sample(F, q, C):
    A = F.A
    o, so = F.vec[1]
    h, ok = half(F, q, C)
    if h is None:
        yield False, DIR, "no half vector is drawn"
        return
    yield ok, DIR, "the half vector is not drawn for the outgoing direction with the two random numbers"
    d = dot(A, o, h)
    w = [A.sub(product(A, A.num(2), d, y), x) for x, y in zip(o, h)]
    yield C.same(F.out(2, q, 3), w), DIR, "not the outgoing direction mirrored at the half vector"
    pdf, got = F.out(5, q, 1), F.spectrum(q)
    p = A.div(fn(F, "pdf", field(F, "distribution"), *(o + h)), A.mul(A.num(4), d))
    s = C.sign(A.mul(o[2], w[2]))
    okp = okv = True
    if "+" in s:
        okp &= C.same(pdf, [p])
        okv &= evaluated(F, q, C, "value", 2)
    if "-" in s:
        okp &= C.same(pdf, [A.num(0)])
        okv &= C.same(got, black(A))
    yield okp, PDF, "not the density of the half vector over 4 cos, or not zero below the surface"
    yield okv, VAL, "the value of a sample is not that of the two directions"


def micro_t_sides(F, C, z):
    return indices(F, C, z)


def micro_t(F, q, C):
    A, T = F.A, F.T
    (o, so), (i, si) = F.vec[1], F.vec[2]
    got = F.spectrum(q)
    ok = True
    if grazing(C, o, i):
        yield C.same(got, black(A)), VAL, "a grazing direction gives something"
        return
    s = C.sign(A.mul(o[2], i[2]))
    if "+" in s:
        yield C.same(got, black(A)), VAL, "two directions on the same side give something"
        return
    d = field(F, "distribution")
    one = spectrum_of(F, "SPECTRUM_ONE")
    for x, eo, ei in indices(F, C, o[2]):
        h = [A.mul(A.num(-1), A.add(A.mul(eo, a), A.mul(ei, b))) for a, b in zip(o, i)]
        if vanishes(C, h):
            ok &= C.same(got, black(A))
            continue
        h0 = unit(A, h)
        for side in C.sign(h[2], h0[2]) - {"0"}:
            hh = h0 if side == "+" else scale(A, A.num(-1), h0)
            oh, ih = dot(A, o, hh), dot(A, i, hh)
            up = product(A, eo, eo, fn(F, "D", d, *hh), fn(F, "G", d, *(o + i)), oh, ih)
            if C.same(got, black(A)):
                ok &= any(k == "lt" and small(C, dd, b, up) for dd, k, b in C.rel)
                continue
            den = A.add(A.mul(eo, oh), A.mul(ei, ih))
            k = A.absolute(A.div(up, product(A, den, den, o[2], i[2])))
            fr = [fn(F, "eval.%d" % c, embedded(F, "fresnel_diel"), ih) for c in range(3)]
            ok &= C.same(got, [A.mul(A.sub(u, f), k) for u, f in zip(one, fr)])
    yield ok, VAL, "not (1-F) D G |cos cos| eta^2 / ((sum)^2 cos cos) of the rough refraction"


def small(C, d, b, up):
    """the fact says that the magnitude of `up` is below a tiny constant"""
    A = C.A
    for k in (A.absolute(up),):
        s = A.add(d, k) if b else A.sub(k, d) if False else A.add(d, k)
        e = A.const(C.known(A.reduce(s)))
        if b and e is not None and 0 < e < Fraction(1, 1000):
            return True
        e = A.const(C.known(A.reduce(A.sub(k, d))))
        if not b and e is not None and 0 < e < Fraction(1, 1000):
            return True
    return False


def jacobian(F, eo, ei, oh, ih):
    A = F.A
    den = A.add(A.mul(eo, oh), A.mul(ei, ih))
    den = A.mul(den, den)
    return A.div(product(A, ei, ei, A.absolute(ih)), den), A.div(product(A, eo, eo, A.absolute(oh)), den)


def micro_t_pdf(F, q, C):
    A = F.A
    (o, so), (i, si) = F.vec[1], F.vec[2]
    got = [q.ret]
    s = C.sign(A.mul(o[2], i[2]))
    if "+" in s:
        yield C.same(got, [A.num(0)]), PDF, "two directions on the same side have a density"
        return
    ok, known = True, False
    for x, eo, ei in indices(F, C, o[2]):
        h = [A.mul(A.num(-1), A.add(A.mul(eo, a), A.mul(ei, b))) for a, b in zip(o, i)]
        if vanishes(C, h):
            ok &= C.same(got, [A.num(0)])
            continue
        h = unit(A, h)
        right, wrong = jacobian(F, eo, ei, dot(A, o, h), dot(A, i, h))
        p = fn(F, "pdf", field(F, "distribution"), *(o + h))
        if C.same(got, [A.mul(p, wrong)]):
            known = True
        else:
            ok &= C.same(got, [A.mul(p, right)])
    yield ok, PDF, "not the density of the half vector times eta^2 |cos| / (sum)^2"
    if known:
        yield False, PDF, "the Jacobian has the indices and cosines of the two directions exchanged", "MicrofacetT::pdf Jacobian"


def micro_t_sample(F, q, C):
    A, T = F.A, F.T
    o, so = F.vec[1]
    pdf, got = F.out(5, q, 1), F.spectrum(q)
    if C.sign(o[2]) == {"0"}:
        yield C.same(pdf, [A.num(0)]) and C.same(got, black(A)), PDF, "a grazing direction is sampled"
        return
    h, ok = half(F, q, C)
    if h is None:
        yield False, DIR, "no half vector is drawn"
        return
    yield ok, DIR, "the half vector is not drawn for the outgoing direction with the two random numbers"
    w = [A.of(x) for x in F.out(2, q, 3)]
    okd = okp = okv = True
    known = False
    for x, eo, ei in indices(F, C, o[2]):
        r = [A.func("@refract.%d" % c, o + h + [A.div(eo, ei)]) for c in range(3)]
        zero = vanishes(C, r)
        okd &= C.same(F.out(2, q, 3), r) or C.same(F.out(2, q, 3), unit(A, r))
        if zero:
            okp &= C.same(pdf, [A.num(0)])
            okv &= C.same(got, black(A))
            continue
        p = fn(F, "pdf", field(F, "distribution"), *(o + h))
        both = [jacobian(F, eo, ei, dot(A, o, h), dot(A, x, h)) for x in (r, unit(A, r))]
        if any(C.same(pdf, [A.mul(p, wrong)]) for right, wrong in both):
            known = True
        else:
            okp &= any(C.same(pdf, [A.mul(p, right)]) for right, wrong in both)
        okv &= evaluated(F, q, C, "value", 2)
    yield okd, DIR, "not the outgoing direction refracted at the half vector"
    yield okp, PDF, "not the density of the half vector times eta^2 |cos| / (sum)^2, or not zero on total internal reflection"
    yield okv, VAL, "the value of a sample is not that of the two directions"
    if known:
        yield False, PDF, "the Jacobian has the indices and cosines of the two directions exchanged", "MicrofacetT::sample_value Jacobian"


# ------------------------------------------------------------------------------------------------ distributions
def dist_params(F):
    A = F.A
    out = {}
    for n in ("exponent", "a", "a2", "ax", "ay"):
        if n in layout(F.p, F.cls):
            out[n] = member(F, n)
            if n != "exponent":
                A.within(out[n])
            else:
                (m, c), = out[n][0].items()
                A.nonneg.add(m[0][0])
    return out


def dist_d(F, q, C):
    A = F.A
    P = dist_params(F)
    h, s = F.vec[1]
    z = A.absolute(h[2])
    z2, s2 = A.mul(h[2], h[2]), A.sub(A.num(1), A.mul(h[2], h[2]))
    got = [q.ret]
    if F.cls == "Blinn":
        w = A.mul(A.div(A.add(P["exponent"], A.num(2)), A.mul(A.num(2), A.pi)), A.func("powf", [z, P["exponent"]]))
        yield C.same(got, [w]), VAL, "not (e+2)/2pi cos^e"
        return
    if C.sign(h[2]) == {"0"}:
        yield C.same(got, [A.num(0)]), VAL, "a half vector in the surface has a density"
        return
    t2 = A.div(s2, z2)
    z4 = A.mul(z2, z2)
    if F.cls == "Beckmann":
        a2 = A.mul(P["a"], P["a"])
        e = A.func("expf", [A.mul(A.num(-1), A.div(t2, a2))])
        w = A.div(e, product(A, A.pi, a2, z4))
        if C.same(got, [A.mul(w, e)]):
            yield False, VAL, "the exponential is applied twice", "Beckmann::D exponent"
        else:
            yield C.same(got, [w]), VAL, "not exp(-tan^2/a^2)/(pi a^2 cos^4)"
    elif F.cls == "GGXiso":
        k = A.add(P["a2"], t2)
        yield C.same(got, [A.div(P["a2"], product(A, A.pi, z4, k, k))]), VAL, "not a^2/(pi cos^4 (a^2+tan^2)^2)"
    else:
        ax, ay = P["ax"], P["ay"]
        if C.sign(s, s2, A.sub(A.num(1), z)) == {"0"}:
            top = A.div(A.num(1), product(A, A.pi, ax, ay))
            if C.same(got, [A.num(1)]):
                yield False, VAL, "the density of the normal itself is 1 instead of 1/(pi ax ay)", "GGXaniso::D of the normal"
            else:
                yield C.same(got, [top]), VAL, "not 1/(pi ax ay) for the normal itself"
            return
        k = A.add(A.num(1), A.mul(t2, A.add(A.div(A.div(A.mul(h[0], h[0]), s2), A.mul(ax, ax)), A.div(A.div(A.mul(h[1], h[1]), s2), A.mul(ay, ay)))))
        yield C.same(got, [A.div(A.num(1), product(A, A.pi, ax, ay, z4, k, k))]), VAL, "not 1/(pi ax ay cos^4 (1+tan^2(cos^2/ax^2+sin^2/ay^2))^2)"


def g1(F, C, v, s, P):
    """[(want, defect)] for one direction"""
    A = F.A
    z = A.absolute(v[2])
    if F.cls in ("Blinn", "Beckmann"):
        if C.sign(v[2]) == {"0"}:
            return A.num(0), None
        if C.sign(s, A.sub(A.num(1), z)) == {"0"}:
            return A.num(1), None
        k = A.sqrt(A.add(A.div(P["exponent"], A.num(2)), A.num(1))) if F.cls == "Blinn" else A.div(A.num(1), P["a"])
        c = A.div(A.mul(k, z), s)
        above = C.sign(A.sub(c, A.num(Fraction("1.6"))))
        if "-" not in above:
            return A.num(1), None
        if "+" in above:
            return None, None
        N = lambda x: A.num(Fraction(x))
        c2 = A.mul(c, c)
        return A.div(A.add(A.mul(N("3.535"), c), A.mul(N("2.181"), c2)), A.add(A.add(A.num(1), A.mul(N("2.276"), c)), A.mul(N("2.577"), c2))), None
    z2 = A.mul(v[2], v[2])
    if C.sign(v[2]) == {"0"}:
        return A.num(0), None
    f = lambda s2: A.div(A.num(2), A.add(A.num(1), A.sqrt(A.add(A.num(1), A.div(A.mul(P["a2"], s2), z2)))))
    return f(A.sub(A.num(1), z2)), f(A.sub(A.num(1), A.mul(z2, z2)))


def dist_g(F, q, C):
    A, T = F.A, F.T
    P = dist_params(F)
    got = [q.ret]
    (o, so), (i, si) = F.vec[1], F.vec[2]
    if F.cls != "GGXaniso":
        (a, da), (b, db) = g1(F, C, o, so, P), g1(F, C, i, si, P)
        if a is None or b is None:
            yield False, VAL, "the rough approximation is not used exactly below 1.6"
            return
        ok = C.same(got, [A.mul(a, b)])
        if not ok and (da or db) and C.same(got, [A.mul(da or a, db or b)]):
            yield False, VAL, "the squared sine is 1-cos^4 instead of 1-cos^2", "GGXiso::G sine"
        else:
            yield ok, VAL, "not the product of the shadowing of the two directions"
        return
    lam, bad = [], []
    for v, s in ((o, so), (i, si)):
        z = A.absolute(v[2])
        inf = [b for t, b in q.facts.items() if infinite(F, C, t, A.div(s, z))]
        if True in inf:
            lam.append(A.num(0)), bad.append(A.num(0))
            continue
        if C.sign(s, A.div(s, z)) == {"0"}:
            lam.append(A.num(0)), bad.append(A.num(1))
            continue
        s2, z2 = A.mul(s, s), A.mul(v[2], v[2])
        t2 = A.div(s2, z2)
        a2 = A.add(A.mul(A.div(A.mul(v[0], v[0]), s2), A.mul(P["ax"], P["ax"])), A.mul(A.div(A.mul(v[1], v[1]), s2), A.mul(P["ay"], P["ay"])))
        x = A.div(A.sub(A.sqrt(A.add(A.num(1), A.mul(t2, a2))), A.num(1)), A.num(2))
        lam.append(x), bad.append(x)
    w = lambda l: [A.div(A.num(1), A.add(A.num(1), A.add(*l)))]
    ok = C.same(got, w(lam))
    if not ok and C.same(got, w(bad)):
        yield False, VAL, "a direction along the normal counts as half hidden", "GGXaniso::G along the normal"
    else:
        yield ok, VAL, "not 1/(1+L+L) of the two directions"


def infinite(F, C, t, form):
    """the fact is that the quantity is infinite"""
    T, A = F.T, F.A
    n = T.node[t]
    if n[0] == "call" and "isinf" in n[1]:
        return C.same([n[2][-1]], [form]) or C.same([n[2][-1]], [A.absolute(form)])
    if n[0] == "fpclass":
        return C.same([n[1]], [form])
    if n[0] == "eq":
        for a, b in ((n[1], n[2]), (n[2], n[1])):
            m = T.node[b]
            if m[0] == "c" and (isinstance(m[1], str) or m[1] == float("inf")):
                return True
    return False


def dist_pdf(F, q, C):
    A, T = F.A, F.T
    got = [q.ret]
    if F.cls == "MicrofacetDist":
        h, s = F.vec[2]
        yield C.same(got, [A.mul(A.func("@D", [A.of(T.mk("ptr", ("arg", 0), 0, ()))] + h), A.absolute(h[2]))]), PDF, "not D times the cosine"
        return
    P = dist_params(F)
    (o, so), (h, s) = F.vec[1], F.vec[2]
    z = A.absolute(h[2])
    f = lambda k: A.mul(A.div(A.add(P["exponent"], A.num(k)), A.mul(A.num(2), A.pi)), A.func("powf", [z, P["exponent"]]))
    s = C.sign(dot(A, o, h))
    if "+" not in s:
        yield C.same(got, [A.num(0)]), PDF, "a half vector away from the direction has a density"
    elif C.same(got, [f(2)]):
        yield False, PDF, "the density is (e+2)/2pi cos^e although half vectors are drawn by (e+1)/2pi cos^e", "Blinn::pdf exponent"
    else:
        yield C.same(got, [f(1)]), PDF, "not the density (e+1)/2pi cos^e half vectors are drawn by"


def dist_sample(F, q, C):
    A, T = F.A, F.T
    P = dist_params(F)
    o, so = F.vec[1]
    r0, r1 = F.inp(2)[0], F.inp(3)[0]
    phi = product(A, A.num(2), A.pi, r1)
    one = A.num(1)
    if F.cls == "Blinn":
        cost = A.func("powf", [r0, A.div(one, A.add(P["exponent"], one))])
        c2 = A.mul(cost, cost)
    elif F.cls == "Beckmann":
        c2 = A.div(one, A.sub(one, product(A, P["a"], P["a"], A.func("logf", [A.sub(one, r0)]))))
        cost = A.div(one, A.sqrt(A.div(one, c2)))
    elif F.cls == "GGXiso":
        c2 = A.div(A.sub(one, r0), A.add(A.mul(r0, A.sub(P["a2"], one)), one))
        cost = A.sqrt(c2)
    else:
        base = A.add(phi, A.div(A.pi, A.num(2)))
        s, c = polar(A, base)
        phi = A.func("atanf", [A.mul(A.div(P["ay"], P["ax"]), A.div(s, c))])
        half = C.sign(A.sub(r1, A.num(Fraction(1, 2))))
        if "+" in half and "-" in half:
            yield False, DIR, "the azimuth is not told apart at one half"
            return
        if "+" in half:
            phi = A.add(phi, A.pi)
        s, c = polar(A, phi)
        t2 = A.div(A.mul(A.div(one, A.add(A.div(A.mul(c, c), A.mul(P["ax"], P["ax"])), A.div(A.mul(s, s), A.mul(P["ay"], P["ay"])))), r0), A.sub(one, r0))
        cost = A.div(one, A.sqrt(A.add(one, t2)))
        c2 = A.div(one, A.add(one, t2))
    s, c = polar(A, phi)
    w = [A.of(x) for x in F.out(4, q, 3)]
    sint = A.sqrt(A.sub(one, c2))
    low = C.sign(A.sub(one, c2))
    if low == {"-"}:
        # only by rounding: the sine is clamped
        sint = A.num(0)
    ok = True
    for x in C.sign(A.mul(o[2], cost)) - {"0"}:
        k = 1 if x == "+" else -1
        ok &= C.same(w, [product(A, A.num(k), sint, c), product(A, A.num(k), sint, s), A.mul(A.num(k), cost)])
    yield ok, DIR, "not the half vector of the distribution on the side of the direction"


# ------------------------------------------------------------------------------------------------ constructors
KIND = {"Lambertian": 1, "OrenNayar": 1, "MicrofacetR": 1, "MicrofacetT": 2, "Reflection": 5, "ConductorReflection": 5, "DielectricReflection": 5, "Refraction": 6}


def ctor(F, q, C):
    A, T, c = F.A, F.T, F.cls
    L = layout(F.p, c)
    if c in KIND:
        k = F.v.num(q.cell(("arg", 0), layout(F.p, "Bdf")["type"][2], 1))
        yield k == KIND[c], CTR, "not marked as what it is (reflecting 1, transmitting 2, mirror 4)"

    def spec(j, k):
        return A.of(T.mk("mem", ("arg", F.par[j][2]), 4 * k, (), 4, 0))

    def at(name, k=0):
        return q.cell(("arg", 0), L[name][2] + 4 * k)

    def clamped(j, hi):
        x = F.inp(j)[0]
        lo, up = C.sign(x), C.sign(A.sub(A.num(hi), x))
        r = []
        if "-" in lo:
            r.append(A.num(0))
        if "-" in up and "+" in lo:
            r.append(A.num(hi))
        if "+" in lo and "+" in up or not r:
            r.append(x)
        return r

    def bounded(got, j, hi, f=lambda x: x):
        w = clamped(j, hi)
        return len(w) == 1 and C.same([got], [f(w[0])])
    if c == "OrenNayar":
        yield from oren_ctor(F, q, C)
    elif c in ("Conductor", "ConductorReflection"):
        a, b = ("refraction_index", "absorption") if c == "Conductor" else ("ior", "fresnel")
        yield all(C.same([at(a, k)], [spec(1, k)]) for k in range(3)), CTR, "not the refraction index given"
        w = (lambda k: spec(2, k)) if c == "Conductor" else (lambda k: A.add(A.mul(spec(1, k), spec(1, k)), A.mul(spec(2, k), spec(2, k))))
        yield all(C.same([at(b, k)], [w(k)]) for k in range(3)), CTR, "not the absorption given"
    elif c in ("Dielectric", "DielectricReflection", "Refraction", "MicrofacetT"):
        j = 2 if c == "MicrofacetT" else 1
        yield C.same([at("eta_i"), at("eta_t")], [spec(j, 0), spec(j + 1, 0)]), CTR, "not the refraction indices given, inside and outside"
        if c == "MicrofacetT":
            D = layout(F.p, "Dielectric")
            f = [q.cell(("arg", 0), L["fresnel_diel"][2] + D[n][2]) for n in ("eta_i", "eta_t")]
            yield C.same(f, [spec(2, 0), spec(3, 0)]), CTR, "the Fresnel term has other refraction indices"
            yield q.cell(("arg", 0), L["distribution"][2], 8) == T.mk("ptr", ("arg", F.par[1][2]), 0, ()), CTR, "not the distribution given"
    elif c == "MicrofacetR":
        ok = q.cell(("arg", 0), L["distribution"][2], 8) == T.mk("ptr", ("arg", F.par[1][2]), 0, ()) and q.cell(("arg", 0), L["fresnel"][2], 8) == T.mk("ptr", ("arg", F.par[2][2]), 0, ())
        yield ok, CTR, "not the distribution and the Fresnel term given"
    elif c == "Blinn":
        yield bounded(at("exponent"), 1, 100000), CTR, "not the exponent between 0 and 100000"
    elif c == "Beckmann":
        yield bounded(at("a"), 1, 1), CTR, "not the roughness between 0 and 1"
    elif c == "GGXiso":
        yield bounded(at("a2"), 1, 1, lambda x: A.mul(x, x)), CTR, "not the squared roughness between 0 and 1"
    elif c == "GGXaniso":
        yield bounded(at("ax"), 1, 1) and bounded(at("ay"), 2, 1), CTR, "not the two roughnesses between 0 and 1"


CHECKS = {
    "Lambertian::value": lambert, "OrenNayar::value": oren, "Bdf::pdf": cosine_pdf, "Bdf::sample_value": cosine_sample,
    "Dielectric::eval": dielectric, "Conductor::eval": conductor, "ConductorReflection::sample_value": conductor_mirror, "DielectricReflection::sample_value": dielectric_mirror,
    "Refraction::sample_value": refraction, "Reflection::value": specular_value, "Refraction::value": specular_value, "Reflection::pdf": specular_pdf, "Refraction::pdf": specular_pdf,
    "MicrofacetR::value": micro_r, "MicrofacetR::pdf": micro_r_pdf, "MicrofacetR::sample_value": micro_r_sample,
    "MicrofacetT::value": micro_t, "MicrofacetT::pdf": micro_t_pdf, "MicrofacetT::sample_value": micro_t_sample,
    "MicrofacetDist::pdf": dist_pdf, "Blinn::pdf": dist_pdf,
}
for c in ("Blinn", "Beckmann", "GGXiso", "GGXaniso"):
    CHECKS[c + "::D"] = dist_d
    CHECKS[c + "::G"] = dist_g
    CHECKS[c + "::sample_wh"] = dist_sample
for c in list(KIND) + ["Conductor", "Dielectric", "Blinn", "Beckmann", "GGXiso", "GGXaniso"]:
    CHECKS[c + "::" + c] = ctor
