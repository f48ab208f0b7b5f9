"""Value numbering over the lookup of textures: which texel, of which level of detail, a coordinate leads to, and with which
weights texels and levels are mixed, as formulas of the coordinates, their differentials and the texture's placement."""
import math
import re
from itertools import product as combos
import front, vn
from front import AnalysisError
from common import *
from c10 import Fn
from c13 import Smp, obligation, fields
from c12 import product
from optics import Case, Mat

LEVEL = "other"
ASSUMES = ["rounding is not modelled, neither of coordinates nor of the eight bits of a texel's channel",
           "bilinear filtering is decided from half a texel after the left and upper border on",
           "textures have a power of two of texels on each side (others are refused); pyramids are decided for sides 1, 2, 4 (thorough: 8)"]
ROOTS = (r"^(ImageMap[A-Za-z]*::(filter|bilinear|ewa)\(|TextureImage::map_value\(|MaskBoolean::is_|calculate_differentials\(|ImageMap::ImageMap\(|Array2D<TexelUnion>::(get|set|Array2D)\()")
KEEP = [r"^Array2D<.*>::(get|Array2D)\(", r"^ImageMap[A-Za-z]*::(filter|bilinear|ewa)\(", r"^TextureImage::map_value\("]
KEPT = "a texel is read where it was stored"
COORD, TEXEL, MIX, EWA, PYR = ("the coordinates are placed and repeated", "the texel is the one at the coordinates", "neighbours and levels are mixed by distance",
                               "the ellipse is that of the differentials", "a level holds the means of the previous one")


class Chan(Mat):
    """channels of packed texels"""

    def __init__(self, T, subst=None):
        super().__init__(T, subst)
        self.through = False    # channels read back are the numbers they were made from

    def kids(self, t):
        n = self.T.node[t]
        if t in self.subst:
            return ()
        if n[0] == "fptoui8" and self.through:
            return n[1:2]
        if n[0] in ("byte", "fptoui8"):
            return ()
        return super().kids(t)

    def build(self, t):
        n = self.T.node[t]
        if t in self.subst:
            return self.subst[t]
        if n[0] == "fptoui8" and self.through:
            return self.memo[n[1]]
        if n[0] == "byte":
            return self.channel(n[1], n[2])
        return super().build(t)

    def channel(self, t, k):
        """the k-th lowest byte of a term, as a form"""
        T = self.T
        n = T.node[t]
        c = lambda x: T.node[x][1] if T.node[x][0] == "c" and isinstance(T.node[x][1], int) else None
        if n[0] == "c":
            return self.num((n[1] >> 8 * k) & 255)
        if n[0] in ("fptoui8", "byte"):
            return self.num(0) if k else self.of(n[1]) if n[0] == "fptoui8" else self.of(t)
        if n[0] in ("or", "add", "xor"):
            a, b = self.channel(n[1], k), self.channel(n[2], k)
            if self.zero(a):
                return b
            if self.zero(b):
                return a
            if n[0] == "add" and k == 0:
                return self.add(a, b)
            raise AnalysisError("a packed texel")
        s = c(n[2]) if n[0] in ("shl", "lshr", "ashr") else None
        if n[0] == "shl" and s is not None and s % 8 == 0:
            return self.channel(n[1], k - s // 8) if k >= s // 8 else self.num(0)
        if n[0] in ("lshr", "ashr") and s is not None and s % 8 == 0:
            return self.channel(n[1], k + s // 8) if k + s // 8 < 4 else self.num(0)
        if n[0] == "and":
            for a, b in ((n[1], n[2]), (n[2], n[1])):
                if c(a) is not None:
                    mask = (c(a) >> 8 * k) & 255
                    if mask in (0, 255):
                        return self.channel(b, k) if mask else self.num(0)
        if n[0] == "mem" and n[4] == 1:
            return self.of(t) if k == 0 else self.num(0)
        if n[0] == "mem" and n[4] == 4:
            return self.of(T.mk("mem", n[1], n[2] + k, n[3], 1, n[5]))
        return self.var(("channel", t, k))


class Tex(Smp):
    def __init__(self, prog, f, cfg, types, **kw):
        super().__init__(prog, f, cfg, types, **kw)
        self.A = Chan(self.T)
        self.hooks.insert(0, self.known)
        self.rect, self.words32 = None, {}

    def step(self, st, i):
        T = self.T
        if i.op in ("fptoui", "fptosi") and i.ty == "i8":
            x = self.op(st, i.ops[0])
            n = self.num(x)
            return T.mk("fptoui8", x) if n is None else T.const(int(n))
        if i.op == "trunc" and i.ty == "i8":
            x = self.op(st, i.ops[0])
            if self.num(x) is None and T.node[x][0] not in ("fptoui8", "byte"):
                return T.mk("byte", x, 0)
            return x
        if i.op in ("fptosi", "fptoui") and self.rect is not None:
            x = self.op(st, i.ops[0])
            r = self.rect(st, x)
            if r is not None:
                return r
        return super().step(st, i)

    def call(self, st, i):
        if i.callee and re.match(r"(floorf?|ceilf?|truncf?|llvm\.(floor|ceil|trunc)\.f\d+)(\(|$)", i.callee) and len(i.ops) == 1:
            x = self.num(self.op(st, i.ops[0]))
            if x is not None:
                return self.T.const(float((math.ceil if "ceil" in i.callee else math.trunc if "trunc" in i.callee else math.floor)(x)))
        return super().call(st, i)

    def _beq(self, a, b):
        x, y = self.num(a), self.num(b)
        return self.T.const(int(x == y)) if isinstance(x, int) and isinstance(y, int) else super()._beq(a, b)

    def binary(self, op, a, b, ty):
        x, y = self.num(a), self.num(b)
        if op in ("lshr", "ashr", "udiv", "sdiv", "urem", "srem") and isinstance(x, int) and isinstance(y, int) and x >= 0 and y >= 0:
            if "shr" in op:
                return self.T.const(x >> y)
            if y:
                return self.T.const(x // y if "div" in op else x % y)
        return super().binary(op, a, b, ty)

    def load(self, st, root, off, vars, size):
        """texels stored whole and read by channel, or the other way round"""
        T = self.T
        r = super().load(st, root, off, vars, size)
        if size == 1 and len(vars) == 1 and vars[0][0] == 1:
            c = st.mem.get(root, {}).get((off, ()))
            if c and c[0] == 4:
                return T.mk("pick", c[1], vars[0][1])
        if T.node[r][0] != "piece" or vars:
            return r
        if size == 4:
            b = [super(Tex, self).load(st, root, off + k, vars, 1) for k in range(4)]
            if all(T.node[x][0] != "piece" for x in b):
                r = b[0]
                for k in (1, 2, 3):
                    r = T.mk("or", r, T.mk("shl", b[k], T.const(8 * k)))
        elif size == 1:
            w = super().load(st, root, off - off % 4, vars, 4)
            if T.node[w][0] != "piece":
                r = T.mk("byte", w, off % 4)
        return r

    def binary(self, op, a, b, ty):
        x, y = self.num(a), self.num(b)
        if op in ("sdiv", "srem") and isinstance(x, int) and isinstance(y, int) and y:
            d = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return self.T.const(d if op == "sdiv" else x - d * y)
        if op in ("shl", "lshr", "ashr") and isinstance(x, int) and isinstance(y, int) and x >= 0 and 0 <= y < 32:
            return self.T.const(x << y if op == "shl" else x >> y)
        return super().binary(op, a, b, ty)

    def known(self, st, i):
        name = i.callee or (i.d["virt"]["targets"][0][0] if "virt" in i.d and i.d["virt"]["targets"] else "")
        T = self.T
        if re.match(r"(llvm\.)?log2(f|\.f32)?$", name):
            k = self.num(self.op(st, i.ops[0]))
            return (T.const(math.log2(k)),) if k is not None and k > 0 and math.log2(k) == int(math.log2(k)) else None
        m = re.match(r"^(Array2D)<.*>::(get|Array2D)\(|^(ImageMap\w*)::(filter|bilinear|ewa)\(|^(TextureImage)::(map_value)\(", name)
        if not m:
            return None
        a = [self.op(st, o) for o in i.ops]
        what = m.group(2) or m.group(4) or m.group(6)
        if what == "Array2D":
            n = self.num(a[2]) if len(a) > 2 else None
            if n is None:
                raise AnalysisError("the side of a level")
            r, off, vs = self.ptr(a[1])
            st.events.append(("level", i, a[0], n, [self.load(st, r, off + 4 * k, vs, 4) for k in range(n * n)]))
            return (None,)
        t = T.mk("call", "@" + what, tuple(a))
        st.events.append((what, i, a, t))
        return (t,)


class Tx(Fn):
    def __init__(self, prog, p, f, cfg, **kw):
        super().__init__(prog, p, f, cfg, **kw)
        self.v = Tex(prog, f, cfg, p.types, **kw)
        self.A, self.T = self.v.A, self.v.T


def run(ctx):
    prog = program(front.RGB)
    p, fs = flat(ROOTS, keep=KEEP, cfg=front.RGB)
    by = {}
    for f in fs:
        by.setdefault(re.sub(r"\(\.irclone\)| const$", "", f.name).strip().split("(")[0], []).append(f)

    def fns(name):
        ctx.need(by.get(name), name)
        for f in by[name]:
            ctx.count("functions")
            yield f

    def new(f):
        F = Tx(prog, p, f, front.RGB, cut=False, unroll=200, limit=20000)
        F.p = p
        F.lay = fields(p, re.sub(r"<.*", "", f.d["ditypes"][1].replace("const ", "").rstrip("*").strip()))
        if "EWA" in f.name or "Trilinear" in f.name or "Unfiltered" in f.name:
            F.lay = fields(p, "ImageMap")
        return F

    lookup(ctx, fns, new)
    footprint(ctx, fns, new)
    texels(ctx, fns, new)
    masks(ctx, fns, new)
    storage(ctx, fns, new)
    levels(ctx, fns, new)
    ellipse(ctx, fns, new)
    pyramid(ctx, fns, new)
    ctx.at_least(COORD, 2), ctx.at_least(TEXEL, 3), ctx.at_least(KEPT, 2), ctx.at_least(MIX, 3), ctx.at_least(EWA, 1), ctx.at_least(PYR, 1)


def member(F, name, size=8, k=0):
    return F.T.mk("mem", ("arg", 0), F.lay[name] + 4 * k, (), size, 0)


def lookup(ctx, fns, new):
    for f in fns("TextureImage::map_value"):
        F = new(f)
        A, T = F.A, F.T
        hp = fields(F.p, "HitPoint")
        h = lambda name, k=0, size=4: T.mk("mem", ("arg", F.par[1][2]), hp[name] + 4 * k, (), size, 0)
        res = []
        for q in F.paths():
            C = Case(F, q)
            ev = [e for e in q.events if e[0] == "filter"]
            ok = len(ev) == 1 and q.ret == ev[0][3] and ev[0][2][0] == member(F, "imagemap") or len(ev) == 1 and q.ret == ev[0][3] and F.v.ptr(ev[0][2][0])[:2] == (("val", member(F, "imagemap")), 0)
            res.append((q, ok, "not what the texture's image returns"))
            if not ok:
                continue
            a = ev[0][2][1:]
            for k, n in enumerate("uv"):
                raw = A.add(A.mul(A.of(h("uv", k)), A.of(member(F, "scale", 4, k))), A.of(member(F, "shift", 4, k)))
                cell = [A.sub(raw, A.func(x, [raw])) for x in ("floorf", "floor")] + [A.sub(raw, A.of(t)) for t in floors(F, raw)]
                ok = any(C.same([a[k]], [w]) for w in cell) or C.same([a[k]], [raw]) and "-" not in C.sign(raw) and "-" not in C.sign(A.sub(A.num(1), raw))
                res.append((q, ok, "%s is not its fraction after scaling and shifting" % n))
            s = [A.of(member(F, "scale", 4, k)) for k in (0, 1)]
            want = [A.mul(A.of(h(m, d)), s[k]) for d in (0, 1) for k, m in enumerate(("du", "dv"))]
            zero = [A.num(0)] * 4
            un = q.holds(member(F, "unfiltered", 1))
            di = q.holds(h("differentials", 0, 1))
            if un or di is False:
                ok = C.same(a[2:], zero) or un and C.same(a[2:], want)
                res.append((q, ok, "differentials although there are none"))
            else:
                ok = di is True and C.same(a[2:], want)
                res.append((q, ok, "the differentials are not scaled like their coordinate"))
        obligation(ctx, COORD, "TextureImage::map_value", res, f)


def footprint(ctx, fns, new):
    """the coordinates' differentials: how far along dpdu and dpdv the neighbours' rays meet the plane of the hit"""
    for f in fns("calculate_differentials"):
        F = new(f)
        A, T = F.A, F.T
        ray = fields(F.p, "Ray")
        m = lambda i, lay, name, k: A.of(T.mk("mem", ("arg", F.par[i][2]), lay[name] + 4 * k, (), 4, 0))
        h = lambda name: [m(0, F.lay, name, k) for k in range(3)]
        P, N, U, V = h("point_h"), h("normal_h"), h("dpdu"), h("dpdv")
        dot = lambda x, y: total(A, [A.mul(a, b) for a, b in zip(x, y)])
        sides = [A.absolute(n) for n in N]
        res, given = [], 0
        for q in F.paths():
            orders = [o for o in combos((1, 2, 3), repeat=3) if all(ordered(F, sides, o, t) in (None, b) for t, b in q.facts.items())]
            if not orders:
                continue
            base = ("arg", F.par[0][2])
            C = Case(F, q)
            if F.v.num(q.cell(base, F.lay["differentials"], 1)) == 0:
                gone = [k for k in range(3) if all(o[k] == max(o) for o in orders)]
                ax = [[x for x in range(3) if x != g] for g in gone]
                det = [A.sub(A.mul(U[x], V[y]), A.mul(V[x], U[y])) for x, y in ax]
                small = any(C.sign(d) <= {"0"} or any(tiny(F, d, t, b) for t, b in q.facts.items())
                            or all(any(tiny(F, d, t, b, s) for t, b in q.facts.items()) for s in (1, -1)) for d in det)
                res.append((q, small, "no differentials although dpdu and dpdv span the plane"))
                continue
            ok = F.v.num(q.cell(base, F.lay["differentials"], 1)) == 1
            good = False
            given += 1
            for g in range(3) if ok else ():
                if not all(o[g] == max(o) for o in orders):
                    continue
                each = True
                for d in (0, 1):
                    o, w = ([m(1 + d, ray, n, k) for k in range(3)] for n in ("origin", "direction"))
                    t = A.div(dot(N, [A.sub(a, b) for a, b in zip(P, o)]), dot(N, w))
                    u, v = (A.of(q.cell(base, F.lay[n] + 4 * d, 4)) for n in ("du", "dv"))
                    for k in (k for k in range(3) if k != g):
                        each = each and C.same([A.add(A.mul(u, U[k]), A.mul(v, V[k]))], [A.sub(A.add(o[k], A.mul(w[k], t)), P[k])])
                good = good or each
            res.append((q, good, "not the steps along dpdu and dpdv to where the rays meet the plane, seen along the normal's largest coordinate"))
        res.append((q, given, "no differentials at all"))
        obligation(ctx, COORD, "calculate_differentials", res, f)


def tiny(F, d, t, b, side=0):
    """a condition that says that d is (nearly) 0, or (side 1, -1) not far above, below it"""
    n = F.T.node[t]
    if n[0] == "not":
        return tiny(F, d, n[1], not b, side)
    if n[0] != "lt":
        return False
    A = F.A
    low, high = (A.of(n[1]), A.of(n[2])) if b else (A.of(n[2]), A.of(n[1]))
    for sign in (1, -1):
        x, lim = (low, F.v.num(n[2] if b else n[1])) if sign == 1 else (high, F.v.num(n[1] if b else n[2]))
        if lim is None or not 0 <= lim * sign <= 1e-3:
            continue
        neg = A.sub(A.num(0), d)
        if side:
            if A.equal(x, d) and side == sign or A.equal(x, neg) and side == -sign:
                return True
        elif sign == 1 and (A.equal(x, A.absolute(d)) or A.equal(x, A.absolute(neg)) or A.equal(x, A.mul(d, d)) and lim <= 1e-6):
            return True
    return False


def ordered(F, sides, o, t):
    """what a condition says if the sides are ordered so; None if it is about something else"""
    T = F.T
    n = T.node[t]
    if n[0] == "not":
        r = ordered(F, sides, o, n[1])
        return None if r is None else not r
    if n[0] in ("lt", "ult") and not isinstance(n[1], str):
        x = [[k for k in range(3) if F.A.equal(F.A.of(a), sides[k])] for a in n[1:3]]
        if x[0] and x[1]:
            return o[x[0][0]] < o[x[1][0]]
    if n[0] in ("and", "or"):
        r = [ordered(F, sides, o, a) for a in n[1:3]]
        s = n[0] == "or"
        return s if s in r else None if None in r else not s
    return None


def floors(F, raw):
    """roundings of the form down that occur"""
    T, A = F.T, F.A
    for t, n in enumerate(list(T.node)):
        if n[0] in ("floor", "ffloor") or n[0] == "call" and n[1] in ("floor", "floorf") and len(n) == 3:
            x = n[2][0] if n[0] == "call" else n[1]
            try:
                if A.equal(A.of(x), raw):
                    yield t
            except AnalysisError:
                pass


def level(F, t, what):
    """the index of an element of one of the image's arrays: (constant, variable terms)"""
    n = F.T.node[t]
    if n[0] != "mem" or n[1] != ("val", member(F, what)):
        return None
    es = {"MIPmap": 8, "side": 2}[what]
    if n[4] != es or n[2] % es or any(k % es for k, x in n[3]):
        return None
    A = F.A
    r = A.num(n[2] // es)
    for k, x in n[3]:
        r = A.add(r, A.mul(A.num(k // es), A.of(x)))
    return r


def elem(F, what, index):
    T = F.T
    es = {"MIPmap": 8, "side": 2}[what]
    if isinstance(index, int) and F.v.num(index) is not None:
        return T.mk("mem", ("val", member(F, what)), es * F.v.num(index), (), es, 0)
    return T.mk("mem", ("val", member(F, what)), 0, ((es, index),), es, 0)


def whole(F, q, form):
    """terms that are the form without its fraction"""
    A, T = F.A, F.T
    out, down = [], list(floors(F, form))
    for t, n in enumerate(list(T.node)):
        if n[0] in ("fptosi", "fptoui", "fptoui8"):
            try:
                if A.equal(A.of(n[1]), form) or n[1] in down and "-" not in Case(F, q).sign(form):
                    out.append(t)
            except (AnalysisError, ZeroDivisionError):
                pass
    return out


def texels(ctx, fns, new):
    for f in fns("ImageMapUnfiltered::filter"):
        F = new(f)
        A, T = F.A, F.T
        res = []
        for q in F.paths():
            ev = [e for e in q.events if e[0] == "get"]
            ok = len(ev) == 1 and q.ret == ev[0][3] and len(q.events) and level(F, ev[0][2][0], "MIPmap") is not None and A.zero(level(F, ev[0][2][0], "MIPmap"))
            res.append((q, ok, "not a texel of the image itself"))
            if not ok:
                continue
            side = A.of(elem(F, "side", T.const(0)))
            for k, n in ((1, "column"), (2, "row")):
                w = whole(F, q, A.sub(A.mul(F.inp(k)[0], side), A.of(T.const(.5))))
                res.append((q, ev[0][2][k] in w, "not the %s the coordinate is in" % n))
        obligation(ctx, TEXEL, "ImageMapUnfiltered::filter", res, f)
    for f in fns("ImageMap::bilinear"):
        F = new(f)
        A, T = F.A, F.T
        res = []
        for q in F.paths():
            C = Case(F, q)
            ev = [e for e in q.events if e[0] == "get"]
            lv = F.arg(3)[0]
            arr, side = elem(F, "MIPmap", lv), A.of(elem(F, "side", lv))
            ok = bool(ev) and all(e[2][0] == arr for e in ev)
            res.append((q, ok, "texels of another level"))
            if not ok:
                continue
            opts = []
            for k in (1, 2):
                pos = A.sub(A.mul(F.inp(k)[0], side), A.num(1, ) if False else A.of(T.const(.5)))
                o = []
                for w in whole(F, q, pos):
                    nxt = []
                    for t in {e[2][k] for e in ev}:
                        n = T.node[t]
                        one = A.add(A.of(w), A.num(1))
                        # of whole numbers
                        room, left = C.sign(A.sub(A.sub(side, A.num(1)), one)), C.sign(A.sub(side, one))
                        if F.v.num(t) == 0:
                            ok = "+" not in room and "0" not in room or "+" not in left
                        elif n[0] in ("srem", "urem") and A.equal(A.of(n[1]), one) and A.equal(A.of(n[2]), side):
                            ok = True
                        elif n[0] == "and" and any(A.equal(A.of(x), one) and A.equal(A.of(y), A.sub(side, A.num(1))) for x, y in ((n[1], n[2]), (n[2], n[1]))):
                            ok = True
                        else:
                            ok = A.equal(A.of(t), one) and ("-" not in room or "0" not in left)     # coordinates are not above 1
                        if ok:
                            nxt.append(t)
                    for t in nxt:
                        d = A.sub(pos, A.of(w))
                        o += [(w, t, d), (w, t, A.absolute(d))]
                opts.append(o)
            ok = False
            for x0, x1, du in opts[0]:
                for y0, y1, dv in opts[1]:
                    tx = lambda x, y: T.mk("call", "@get", (arr, x, y))
                    iu, iv = A.sub(A.num(1), du), A.sub(A.num(1), dv)
                    ok = ok or all(C.same([A_(F, q.ret, k)], [total(A, [product(A, w, A.channel(tx(x, y), k)) for x, y, w in
                            ((x0, y0, A.mul(iu, iv)), (x1, y0, A.mul(du, iv)), (x0, y1, A.mul(iu, dv)), (x1, y1, A.mul(du, dv)))])]) for k in range(4))
            res.append((q, ok, "not the four texels around the point by the distance to each, repeated after the last"))
        obligation(ctx, MIX, "ImageMap::bilinear", res, f)


def value(T, t, env):
    """of a term over integers, the unknowns of which are given"""
    n = T.node[t]
    if t in env:
        return env[t]
    if n[0] == "c":
        return n[1]
    go = lambda x: value(T, x, env)
    if n[0] == "not":
        return int(not go(n[1]))
    if n[0] in ("add", "sub", "mul", "and", "or", "xor", "shl", "ashr", "lshr", "lt", "ult", "eq"):
        x, y = go(n[1]), go(n[2])
        return {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << y,
                "ashr": lambda: x >> y, "lshr": lambda: x >> y, "lt": lambda: int(x < y), "ult": lambda: int(x < y), "eq": lambda: int(bool(x) == bool(y) if -1 in (x, y) else x == y)}[n[0]]()
    if n[0] in ("udiv", "sdiv", "urem", "srem"):
        x, y = go(n[1]), go(n[2])
        return x // y if "div" in n[0] else x % y
    raise AnalysisError("a formula over integers: " + n[0])


def masks(ctx, fns, new):
    for name, sees in (("MaskBoolean::is_visible", 1), ("MaskBoolean::is_masked", 0)):
        for f in fns(name):
            F = new(f)
            T = F.T
            res = []
            m, inv, ch = member(F, "map"), member(F, "inverted", 1), member(F, "channel", 4)
            for q in F.paths():
                none = q.holds(T.mk("eq", *sorted((m, T.const(0)))))
                if none:
                    res.append((q, all(bool(value(T, q.ret, {inv: i})) == bool(sees) for i in (0, 1)), "something is masked although there is no mask"))
                    continue
                ev = [e for e in q.events if e[0] == "map_value"]
                ok = none is False and len(ev) == 1 and F.v.ptr(ev[0][2][1])[:2] == (("arg", F.par[1][2]), 0)
                pick = T.mk("pick", ev[0][3], ch) if ok else None
                for v in (0, 1, 127, 128, 254, 255):
                    for i in (0, 1):
                        env = {pick: v, inv: i}
                        # the path is not taken for other values
                        if ok and all(bool(value(T, t, env)) == b for t, b in q.facts.items() if depends(T, t, env)):
                            ok = (bool(value(T, q.ret, env)) == bool(sees)) == ((v >= 128) != bool(i))
                res.append((q, ok, "visible is not what the channel's value, at least one half, and the inversion say"))
            obligation(ctx, TEXEL, name, res, f)


def depends(T, t, env):
    return t in env or any(isinstance(x, int) and not isinstance(x, bool) and depends(T, x, env) for x in (T.node[t][1:3] if T.node[t][0] in ("not", "lt", "ult", "eq", "and", "or", "xor") else ()))


def storage(ctx, fns, new):
    where = {}
    B = 32
    for f in fns("Array2D<TexelUnion>::get"):
        F = new(f)
        T = F.T
        res = []
        for q in F.paths():
            n = T.node[q.ret]
            ok = n[0] == "mem" and n[1] == ("val", member(F, "data")) and n[2] % 4 == 0
            res.append((q, ok, "not an element of the array"))
            if not ok:
                continue
            for blocks in (1, 2, 4) if ctx.tier == "thorough" else (1, 2):
                env = {member(F, "blocks_no_side", 4): blocks}
                seen = {}
                for y in range(B * blocks):
                    for x in range(B * blocks):
                        env[F.arg(1)[0]], env[F.arg(2)[0]] = x, y
                        o = n[2] + sum(k * value(T, t, env) for k, t in n[3])
                        ok = ok and o % 4 == 0 and 0 <= o < 4 * B * B * blocks * blocks and o not in seen
                        seen[o] = 1
                        where[blocks, x, y] = o
                res.append((q, ok, "two elements share a place, or one is outside of the array"))
        obligation(ctx, KEPT, "Array2D::get", res, f)
    for f in fns("Array2D<TexelUnion>::Array2D"):
        if len(f.d["ditypes"]) != 4:
            continue
        res = []
        for side in (1, 2, 3, 33) if ctx.tier == "quick" else (1, 2, 3, 4, 32, 33, 65):
            F = new(f)
            F.v.unroll, T = 20000, F.T
            F.v.given[F.par[2][2]] = side
            blocks = 1
            while B * blocks < side:
                blocks *= 2
            src = ("arg", F.par[1][2])
            for q in F.paths():
                data = q.cell(("arg", 0), F.lay["data"], 8)
                n = T.node[data]
                r, off, vs = F.v.ptr(data)
                ok = F.v.num(q.cell(("arg", 0), F.lay["blocks_no_side"], 4)) == blocks
                size = math.prod(F.v.num(x) or 0 for x in n[2]) if n[0] == "call" and re.match(r"malloc|calloc|operator new", n[1]) else 0
                res.append((q, ok and size >= 4 * (B * blocks) ** 2, "room for %d elements on each side is not made" % side))
                ok = ok and all(q.cell(r, off + where[blocks, x, y]) == T.mk("mem", src, 4 * (y * side + x), (), 4, 0) for x in range(side) for y in range(side)) if (blocks, 0, 0) in where else ok
                res.append((q, ok, "elements are not stored where they are read"))
        obligation(ctx, KEPT, "Array2D::Array2D", res, f)


def A_(F, t, k):
    """the k-th channel, as a form"""
    return F.A.channel(t, k)


def total(A, l):
    r = A.num(0)
    for x in l:
        r = A.add(r, x)
    return r


def levels(ctx, fns, new):
    for f in fns("ImageMapTrilinear::filter"):
        F = new(f)
        A, T = F.A, F.T
        res = []
        last = A.sub(A.of(member(F, "maps_no", 1)), A.num(1))
        cand = [A.absolute(F.inp(k)[0]) for k in (3, 4, 5, 6)] + [A.of(T.const(1e-5))]
        for q in F.paths():
            C = Case(F, q)
            w = largest(C, A, cand)
            if w is None:
                res.append((q, False, "the conditions do not tell the largest differential, at least 1e-5"))
                continue
            L = A.add(last, A.func("log2f", [cand[w]]))
            ok, why = blend(F, C, q, L, last, lambda lv: T.mk("call", "@bilinear", (T.mk("ptr", ("arg", 0), 0, ()), F.arg(1)[0], F.arg(2)[0], lv)), True)
            res.append((q, ok, why))
        obligation(ctx, MIX, "ImageMapTrilinear::filter", res, f)


    for f in fns("ImageMapEWA::filter"):
        F = new(f)
        A, T = F.A, F.T
        res = []
        last = A.sub(A.of(member(F, "maps_no", 1)), A.num(1))
        D = [F.inp(k)[0] for k in (3, 4, 5, 6)]
        for q in F.paths():
            C = Case(F, q)
            sq = [A.add(A.mul(D[k], D[k]), A.mul(D[k + 1], D[k + 1])) for k in (0, 2)]
            ln = [A.sqrt(x) for x in sq]
            d = C.sign(A.sub(*ln)) & C.sign(A.sub(*sq))
            if d == set("-0+"):
                res.append((q, False, "the conditions do not tell the longer axis"))
                continue
            o = 0 if "-" not in d else 1
            long, short = ln[o], ln[1 - o]
            ax = D[2 * o:2 * o + 2] + D[2 - 2 * o:4 - 2 * o]
            if "+" not in C.sign(short) & C.sign(sq[1 - o]):
                t = T.mk("call", "@bilinear", (T.mk("ptr", ("arg", 0), 0, ()), F.arg(1)[0], F.arg(2)[0], T.const(0)))
                res.append((q, all(C.same([A.channel(q.ret, k)], [A.channel(t, k)]) for k in range(4)), "not the unfiltered image although an axis has no length"))
                continue
            thin = C.sign(A.sub(A.mul(A.num(30), short), long))
            if "+" not in thin:
                k = A.div(long, A.mul(short, A.num(30)))
                ax = ax[:2] + [A.mul(x, k) for x in ax[2:]]
                short = A.mul(short, k)
            elif "-" in thin:
                res.append((q, False, "the conditions do not tell if the ellipse is too thin"))
                continue
            L = A.add(last, A.func("log2f", [short]))
            z = C.sign(L)
            if "+" not in z:
                L = A.num(0)
            elif "-" in z and "-" not in C.sign(last) and "+" in C.sign(A.sub(last, L)):
                res.append((q, False, "the conditions do not tell if the image is reduced"))
                continue

            def at(lv):
                for e in q.events:
                    if e[0] == "ewa" and e[2][-1] == lv and F.v.ptr(e[2][0])[:2] == (("arg", 0), 0) and C.same(e[2][1:7], [F.inp(1)[0], F.inp(2)[0]] + ax):
                        return e[3]
                return T.mk("call", "@none", ())
            ok, why = blend(F, C, q, L, last, at, False)
            res.append((q, ok, why))
        obligation(ctx, MIX, "ImageMapEWA::filter", res, f)


def ellipse(ctx, fns, new):
    side = 2
    for f in fns("ImageMapEWA::ewa"):
        F = new(f)
        A, T = F.A, F.T
        F.v.given[F.par[7][2]] = 0
        F.v.preset[("val", member(F, "side")), 0, 2] = side

        def rect(st, x):
            n = T.node[x]
            up = {"ceil": True, "ceilf": True, "floor": False, "floorf": False}.get(n[1] if n[0] == "call" else n[0])
            if up is None:
                return None
            st.events.append(("bound", up, n[2][0] if n[0] == "call" else n[1]))
            return T.const(-1 if up else 0)
        F.v.rect = rect
        num = lambda k: A.num(k)
        U, V = [A.sub(A.mul(F.inp(k)[0], num(side)), A.of(T.const(.5))) for k in (1, 2)]
        ux, vx, uy, vy = [A.mul(F.inp(k)[0], num(side)) for k in (3, 4, 5, 6)]
        a0 = A.add(A.add(A.mul(vx, vx), A.mul(vy, vy)), num(1))
        c0 = A.add(A.add(A.mul(ux, ux), A.mul(uy, uy)), num(1))
        b0 = A.mul(num(-2), A.add(A.mul(ux, vx), A.mul(uy, vy)))
        fi = A.sub(A.mul(a0, c0), A.div(A.mul(b0, b0), num(4)))
        a, b, c = [A.div(x, fi) for x in (a0, b0, c0)]
        delta = A.sub(product(A, num(4), a, c), A.mul(b, b))
        ext = [A.div(A.mul(num(2), A.sqrt(A.mul(delta, x))), delta) for x in (c, a)]
        res = []
        arr = elem(F, "MIPmap", T.const(0))
        spots = [(x, y) for y in (-1, 0) for x in (-1, 0)]
        r2 = {}
        for x, y in spots:
            du, dv = A.sub(num(x), U), A.sub(num(y), V)
            r2[x, y] = A.add(A.add(product(A, a, du, du), product(A, b, du, dv)), product(A, c, dv, dv))
        qs = F.paths()
        idx = {k: whole(F, None, A.mul(r2[k], num(128))) for k in spots}
        for n, q in enumerate(qs):
            C = Case(F, q)
            if n == 0:
                bs = [e for e in q.events if e[0] == "bound"]
                want = [(True, A.sub(U, ext[0])), (False, A.add(U, ext[0])), (True, A.sub(V, ext[1])), (False, A.add(V, ext[1]))]
                ok = len(bs) == 4 and all(any(e[1] == up and C.same([e[2]], [w]) for e in bs) for up, w in want)
                res.append((q, ok, "the rectangle is not the one around the ellipse"))
            inside = []
            for k in spots:
                s = C.sign(A.sub(num(1), r2[k]))
                if "-" in s and "+" in s:
                    res.append((q, False, "the conditions do not tell the texels in the ellipse"))
                    break
                if "+" in s:
                    inside.append(k)
            else:
                if not inside:
                    continue    # the nearest texel always is in it
                g = next((F.v.ptr(e[2])[0] for e in q.events if e[0] == "load" and F.v.ptr(e[2])[0][0] == "g" and "EWA_WEIGHTS" in str(F.v.ptr(e[2])[0])), None)
                opts = []
                for k in inside:
                    o = []
                    for t in idx[k]:
                        s = C.sign(A.sub(num(127), A.of(t)))
                        if "-" not in s:
                            o.append(A.of(T.mk("mem", g, 0, ((4, t),), 4, 0)))
                        if "+" not in s:
                            o.append(A.of(T.mk("mem", g, 4 * 127, (), 4, 0)))
                            o.append(num(0))
                    opts.append(o)
                ok = False
                for ws in combos(*opts):
                    tw = total(A, ws)
                    if A.zero(tw):
                        ok = True
                        break
                    tx = [T.mk("call", "@get", (arr, T.const(x % side), T.const(y % side))) for x, y in inside]
                    ok = all(C.same([A.channel(q.ret, ch)], [A.div(total(A, [A.mul(w, A.channel(t, ch)) for w, t in zip(ws, tx)]), tw)]) for ch in range(4))
                    if ok:
                        break
                res.append((q, ok, "not the texels in the ellipse, each weighed by its distance"))
        obligation(ctx, EWA, "ImageMapEWA::ewa", res, f)


def pyramid(ctx, fns, new):
    for f in fns("ImageMap::ImageMap"):
        res = []
        for side in (1, 2, 4) if ctx.tier == "quick" else (1, 2, 4, 8):
            F = new(f)
            A, T = F.A, F.T
            F.v.given[F.par[2][2]], A.through = side, True
            src = ("arg", F.par[1][2])
            for q in F.paths():
                n = side.bit_length()
                C = Case(F, q)
                lv = [e for e in q.events if e[0] == "level"]
                mip, sd = q.cell(("arg", 0), F.lay["MIPmap"], 8), q.cell(("arg", 0), F.lay["side"], 8)
                ok = F.v.num(q.cell(("arg", 0), F.lay["maps_no"], 1)) == n and len(lv) == n
                res.append((q, ok, "not %d levels for %d texels on each side" % (n, side)))
                if not ok:
                    continue
                val = {(0, x, y, k): A.channel(T.mk("mem", src, 4 * (y * side + x), (), 4, 0), k) for x in range(side) for y in range(side) for k in range(4)}
                for i in range(n):
                    w = side >> i
                    r, off, vs = F.v.ptr(mip)
                    at = q.cell(r, off + 8 * i, 8)
                    e = [e for e in lv if e[2] == at]
                    r, off, vs = F.v.ptr(sd)
                    ok = len(e) == 1 and e[0][3] == w and F.v.num(q.cell(r, off + 2 * i, 2)) == w
                    res.append((q, ok, "level %d of %d has not %d texels on each side" % (i, n, w)))
                    if not ok:
                        break
                    ok = True
                    for x in range(w):
                        for y in range(w):
                            for k in range(4):
                                if i:
                                    val[i, x, y, k] = A.div(total(A, [val[i - 1, 2 * x + dx, 2 * y + dy, k] for dx in (0, 1) for dy in (0, 1)]), A.num(4))
                                ok = ok and C.same([A.channel(e[0][4][y * w + x], k)], [val[i, x, y, k]])
                    res.append((q, ok, "level %d does not hold the means of four texels each" % i if i else "the first level is not the image"))
        obligation(ctx, PYR, "ImageMap::ImageMap", res, f)


def largest(C, A, cand):
    n = len(cand)
    ge = [[i == j or "-" not in C.sign(A.sub(cand[i], cand[j])) for j in range(n)] for i in range(n)]
    for k in range(n):
        for i in range(n):
            for j in range(n):
                ge[i][j] |= ge[i][k] and ge[k][j]
    top = [i for i in range(n) if all(ge[i])]
    return top[0] if top else None


def blend(F, C, q, L, last, at, zero):
    """a lookup between two levels of detail"""
    A, T = F.A, F.T
    ret = lambda t: q.ret == t or all(C.same([A.channel(q.ret, k)], [A.channel(t, k)]) for k in range(4))
    if zero and "+" not in C.sign(L) or A.zero(L) and ret(at(T.const(0))):
        return ret(at(T.const(0))), "not the full size image although it is not reduced"
    d = C.sign(A.sub(last, L))
    if "+" not in d:
        g = [e for e in q.events if e[0] == "get"]
        ok = len(g) == 1 and level(F, g[0][2][0], "MIPmap") is not None and A.equal(level(F, g[0][2][0], "MIPmap"), last) and F.v.num(g[0][2][1]) == 0 and F.v.num(g[0][2][2]) == 0
        return ok and ret(g[0][3]), "not the only texel of the last level although it covers everything"
    if A.zero(L):
        d = C.sign(last)
    if "0" in d or "-" in d or zero and "-" in C.sign(L):
        return False, "two levels are mixed although one may not exist"
    for k0 in [T.const(0)] if A.zero(L) else whole(F, q, L):
        for k1 in {e[2][-1] for e in q.events if e[0] in ("bilinear", "ewa")}:
            if A.equal(A.of(T.node[k1][1] if T.node[k1][0] == "byte" else k1), A.add(A.of(k0), A.num(1))):
                fr = A.sub(L, A.of(k0))
                ok = all(C.same([A.channel(q.ret, k)], [A.add(A.mul(A.sub(A.num(1), fr), A.channel(at(k0), k)), A.mul(fr, A.channel(at(k1), k)))]) for k in range(4))
                if ok:
                    return True, ""
    return False, "not the two levels around the size of a pixel, by the distance to each"
