"""Value numbering over the random number generator (words as linear functions of the state's bits), the samplers (for
every number of samples up to a bound, every position in the tile), the construction of the sampler for a tile, and the
reconstruction filters (their weight as a formula of the offsets, piece by piece): each is compared with what it is
documented to be."""
import re
from fractions import Fraction
import front, vn
from front import AnalysisError
from common import *
from c09 import layout
from c10 import Fn
from optics import Mat, Dir, Case
from c12 import polar, product

LEVEL = "other"
ASSUMES = ["rounding is not modelled in positions and weights, decimal constants to six digits",
           "samplers are decided for up to 25 (quick: 9) samples per pixel, positions in the tile are arbitrary",
           "a tile has at least one pixel on each axis"]
ROOTS = r"^(Filter[A-Za-z]+::(Filter[A-Za-z]+|weight)\(|Sampler[A-Za-z]*::(Sampler[A-Za-z]*|get_samples|get_random_numbers)\(|WELLrng::(WELLrng|getNumber)\()"
RNG = r"^WELLrng::getNumber\("
KEEP = [RNG]
GEN, STM, POS, WGT, EXT = ("a random number is the next of the generator", "the sampler goes through its tile", "samples cover the pixel",
                           "the weight is that of the filter", "the extent is that of the filter")
SEED = r"^WELLrng::WELLrng\("


class Smp(Dir):
    """draws are values of their own and change nothing but the generator"""

    def __init__(self, prog, f, cfg, types, **kw):
        super().__init__(prog, f, cfg, types, **kw)
        self.hooks.insert(0, self.draw)
        self.words = False      # conversions of words are to be told from those of signed numbers

    def draw(self, st, i):
        name = i.callee or ""
        if re.match(RNG, name):
            st.seq += 1
            t = self.T.mk("call", "draw", (), st.seq)
            st.events.append(("draw", i, t, self.op(st, i.ops[0])))
            return (t,)
        if re.match(SEED, name):
            st.events.append(("seed", i, [self.op(st, o) for o in i.ops]))
            return (None,)
        return None

    def binary(self, op, a, b, ty):
        x, y = self.num(a), self.num(b)
        if op in ("sdiv", "udiv", "srem", "urem") and isinstance(x, int) and isinstance(y, int) and x >= 0 and y > 0:
            return self.T.const(x // y if "div" in op else x % y)
        return super().binary(op, a, b, ty)

    def step(self, st, i):
        r = super().step(st, i)
        if i.op == "sitofp" and self.words and self.num(r) is None:
            return self.T.mk("signed", r)
        return r

    def call(self, st, i):
        r = super().call(st, i)
        n = self.T.node[r] if r is not None else ("",)
        if n[0] == "call" and n[1] in ("sqrt", "sqrtf") and len(n) == 3:
            k = self.num(n[2][0])
            if k is not None and k >= 0:
                return self.T.const(float(k) ** .5)
        return r


class Sn(Fn):
    def __init__(self, prog, p, f, cfg, **kw):
        super().__init__(prog, p, f, cfg, **kw)
        self.v = Smp(prog, f, cfg, p.types, **kw)
        self.A, self.T = self.v.A, self.v.T


def run(ctx):
    prog = program(front.RGB)
    done = {}
    p, fs = flat(ROOTS, keep=KEEP, cfg=front.RGB)
    by = {}
    for f in fs:
        name = re.sub(r"\(\.irclone\)| const$", "", f.name).strip().split("(")[0]
        if any("%s const&" % name.split("::")[0] in x or "%s&&" % name.split("::")[0] in x for x in f.d["ditypes"][2:]):
            continue
        by.setdefault(name, []).append(f)

    def fns(name):
        ctx.need(by.get(name), name)
        for f in by[name]:
            ctx.count("functions")
            yield f

    def new(f, cls):
        F = Sn(prog, p, f, front.RGB, cut=False, unroll=400, limit=60000)
        F.p, F.types, F.cls = p, p.types, cls
        return F

    generator(ctx, fns, new, p)
    samplers(ctx, fns, new, p)
    tiles(ctx, prog)
    filters(ctx, fns, new)
    ctx.at_least(GEN, 3), ctx.at_least(STM, 8), ctx.at_least(POS, 2), ctx.at_least(WGT, 5), ctx.at_least(EXT, 5)


def obligation(ctx, rule, inst, results, where):
    """one obligation over many paths: the first that fails is reported"""
    bad = [(q, w) for q, ok, w in results if not ok]
    ctx.need(results, "paths of " + inst)
    ctx.count("paths", len(results))
    ctx.ob(rule, inst, not bad, (bad or results)[0][0].where(), "%s: %s" % (inst, bad[0][1] if bad else ""))


# ------------------------------------------------------------------------------------------------ generator
class Bits:
    """32-bit words as 32 sums (without carry) of bits of the state"""

    def __init__(self, T, word):
        self.T, self.word, self.memo = T, word, {}

    def of(self, t):
        if t not in self.memo:
            self.memo[t] = self.build(t)
        return self.memo[t]

    def build(self, t):
        n = self.T.node[t]
        Z = frozenset()
        if n[0] == "c" and isinstance(n[1], int):
            if n[1] & 0xffffffff:
                raise AnalysisError("a constant in a state word")
            return [Z] * 32
        if n[0] == "mem":
            return [frozenset([(self.word(n), k)]) for k in range(32)]
        if n[0] == "xor":
            return [x ^ y for x, y in zip(self.of(n[1]), self.of(n[2]))]
        if n[0] in ("shl", "lshr", "mul", "udiv"):
            k = self.const(n[2])
            x = self.of(n[1])
            if n[0] in ("mul", "udiv"):
                if k < 1 or k & (k - 1):
                    raise AnalysisError("arithmetic on a state word")
                k = k.bit_length() - 1
            if n[0] in ("shl", "mul"):
                return ([Z] * k + x)[:32]
            return x[k:] + [Z] * min(k, 32)
        if n[0] in ("and", "or"):
            for a, b in ((n[1], n[2]), (n[2], n[1])):
                m = self.T.node[b]
                if m[0] == "c" and n[0] == "and":
                    return [x if m[1] >> k & 1 else Z for k, x in enumerate(self.of(a))]
            if n[0] == "or":
                a, b = self.of(n[1]), self.of(n[2])
                if all(not x or not y for x, y in zip(a, b)):
                    return [x | y for x, y in zip(a, b)]
        raise AnalysisError("state word %s" % self.T.show(t)[:80])

    def const(self, t):
        n = self.T.node[t]
        if n[0] != "c" or not isinstance(n[1], int):
            raise AnalysisError("a shift that is not constant")
        return n[1]


def generator(ctx, fns, new, p):
    lay = layout(p, "WELLrng")
    si, sa = lay["state_i"], lay["state"]
    R = sa[3] // 4
    size = max(x[2] + x[3] for x in lay.values())
    ctx.need(R == 32, "a state of 32 words")
    for f in fns("WELLrng::WELLrng"):
        F = new(f, "WELLrng")
        res = []
        for q in F.paths():
            ok = q.cell(("arg", 0), si[2]) == F.T.const(0) and all(
                q.cell(("arg", 0), sa[2] + 4 * k) == F.T.mk("mem", ("arg", 1), 4 * k, (), 4, 0) for k in range(R))
            res.append((q, ok, "the state is not the seed"))
        obligation(ctx, GEN, "WELLrng::WELLrng", res, f)
    step, rng = [], []
    for f in fns("WELLrng::getNumber"):
        for k in range(R):
            F = new(f, "WELLrng")
            F.v.preset[("arg", 0), si[2], 4] = k
            F.v.words = True
            B = Bits(F.T, lambda n: (n[2] - sa[2]) // 4 if n[1] == ("arg", 0) and not n[3] and sa[2] <= n[2] < sa[2] + sa[3] else str(n))
            V = lambda d: [frozenset([((k + d) % R, j)]) for j in range(32)]
            X = lambda *ws: [frozenset.__xor__(*p) if len(p) == 2 else frozenset.__xor__(frozenset.__xor__(p[0], p[1]), p[2]) for p in zip(*ws)]
            up = lambda n, w: X(w, [frozenset()] * n + w[:32 - n])
            down = lambda n, w: X(w, w[n:] + [frozenset()] * n)
            z0 = V(31)
            z1 = X(V(0), down(8, V(3)))
            z2 = X(up(19, V(24)), up(14, V(10)))
            v1, v0 = X(z1, z2), X(up(11, z0), up(7, z1), up(13, z2))
            nk = (k + 31) % R
            for q in F.paths():
                st = [q.cell(("arg", 0), sa[2] + 4 * j) for j in range(R)]
                ok = F.v.num(q.cell(("arg", 0), si[2])) == nk
                for j in range(R):
                    ok &= B.of(st[j]) == (v1 if j == k else v0 if j == nk else [frozenset([(j, b)]) for b in range(32)])
                step.append((q, ok, "the state does not advance as that of WELL1024a"))
                t, factor = q.ret, 1.0
                while True:
                    n = F.T.node[t]
                    if n[0] == "fmul" and F.v.num(n[2]) is not None:
                        t, factor = n[1], factor * F.v.num(n[2])
                    elif n[0] == "fmul" and F.v.num(n[1]) is not None:
                        t, factor = n[2], factor * F.v.num(n[1])
                    elif n[0] == "fdiv" and F.v.num(n[2]):
                        t, factor = n[1], factor / F.v.num(n[2])
                    elif n[0] == "call" and re.match(r"(std::)?(ldexp|scalbn)f?(\(|$)", n[1]) and F.v.num(n[2][1]) is not None:
                        t, factor = n[2][0], factor * 2.0**F.v.num(n[2][1])
                    else:
                        break
                signed = F.T.node[t][0] == "signed"
                rng.append((q, not signed and B.of(t) == v0 and abs(factor * 2.0**32 - 1) < 1e-6, "not the new word scaled to the interval from 0 to 1"))
                rng.append((q, factor * 2.0**32 <= 1, "numbers above 1"))
                inside = all(r[0] != "arg" or r[1] == 0 and all(0 <= o < size and not v for o, v in q.stored(r)) for r in q.st.mem)
                step.append((q, inside, "writes outside the generator"))
        obligation(ctx, GEN, "WELLrng::getNumber (state)", step, f)
        obligation(ctx, GEN, "WELLrng::getNumber (number)", rng, f)


# ------------------------------------------------------------------------------------------------ samplers
FIELDS = ("startx", "endx", "starty", "endy")
SPP = {"quick": (1, 2, 4, 5, 9), "thorough": (1, 2, 3, 4, 5, 9, 16, 25)}


def inputs(F, order):
    """terms of the integer parameters"""
    return {n: F.arg(j + 1)[0] for j, n in enumerate(order)}


def samplers(ctx, fns, new, p):
    order = ("startx", "endx", "starty", "endy", "spp")
    grid = {}
    for cls in ("Sampler", "SamplerRandom", "SamplerStratified"):
        name = "%s::%s" % (cls, cls)
        lay = fields(p, cls)
        for f in fns(name):
            res, draws = [], []
            F = new(f, cls)
            a = inputs(F, order)
            for q in F.paths():
                got = {n: q.cell(("arg", 0), lay[n]) for n in order}
                res.append((q, got == a, "the tile and the number of samples are not kept"))
                seed = [e for e in q.events if e[0] == "seed"]
                ok = len(seed) == 1 and F.T.node[seed[0][2][0]][1:3] == (("arg", 0), lay["rng"]) and seed[0][2][1] == F.v.op(q.st, ("a", F.par[6][2]))
                if not seed:
                    # inlined
                    w = fields(p, "WELLrng")
                    sd = F.par[6][2]
                    ok = all(q.cell(("arg", 0), lay["rng"] + w["state"] + 4 * k) == F.T.mk("mem", ("arg", sd), 4 * k, (), 4, 0) for k in range(32))
                res.append((q, ok, "the generator is not given the seed"))
                if cls != "Sampler":
                    ok = q.cell(("arg", 0), lay["nextx"]) == a["startx"] and q.cell(("arg", 0), lay["nexty"]) == a["starty"]
                    res.append((q, ok, "the first pixel is not the tile's first"))
                if cls == "SamplerStratified":
                    ok = q.cell(("arg", 0), lay["randomized"], 1) == F.arg(7)[0] or q.cell(("arg", 0), lay["randomized"], 1) == F.v.op(q.st, ("a", F.par[7][2]))
                    res.append((q, ok, "whether strata are jittered is not kept"))
            obligation(ctx, STM, name, res, f)
            if cls == "SamplerStratified":
                res = []
                for n in range(1, 122 if ctx.tier == "quick" else 1025):
                    F = new(f, cls)
                    F.v.given[F.par[5][2]] = n
                    for q in F.paths():
                        x, y = (F.v.num(q.cell(("arg", 0), lay["strata_" + c])) for c in "xy")
                        ctx.need(isinstance(x, int) and isinstance(y, int), "the number of strata")
                        r = int(n**.5 + 1e-9)
                        res.append((q, 0 < x and 0 < y and x * y <= n and (r * r != n or x * y == n), "%d samples per pixel make %d x %d strata" % (n, x, y)))
                        grid[n] = x, y
                obligation(ctx, POS, name + " (strata)", res, f)
    for f in fns("SamplerRandom::get_samples"):
        pos, walk = [], []
        for n in SPP[ctx.tier]:
            F = new(f, "SamplerRandom")
            run_samples(F, p, n, (1, 1), True, {"spp": n}, pos, walk)
        obligation(ctx, POS, "SamplerRandom::get_samples", pos, f)
        obligation(ctx, STM, "SamplerRandom::get_samples", walk, f)
    for f in fns("SamplerStratified::get_samples"):
        for jit in (1, 0):
            pos, walk = [], []
            for n in [x for x in SPP[ctx.tier] if int(x**.5) ** 2 == x]:
                F = new(f, "SamplerStratified")
                run_samples(F, p, n, grid[n], jit, {"spp": n, "randomized": jit, "strata_x": grid[n][0], "strata_y": grid[n][1]}, pos, walk)
            inst = "SamplerStratified::get_samples (%s)" % ("jittered" if jit else "centred")
            obligation(ctx, POS, inst, pos, f)
            obligation(ctx, STM, inst, walk, f)
    for f in fns("Sampler::get_random_numbers"):
        res = []
        for n in (0, 1, 2, 6):
            F = new(f, "Sampler")
            F.v.given[F.par[2][2]] = n
            for q in F.paths():
                got = [q.cell(("arg", 1), 4 * k) for k in range(n)]
                ok = len(set(got)) == n and all(F.T.node[t][:2] == ("call", "draw") for t in got)
                ok &= {o for o, v in q.stored(("arg", 1))} == {4 * k for k in range(n)}
                res.append((q, ok, "not a draw of its own for each of %d numbers" % n))
        obligation(ctx, POS, "Sampler::get_random_numbers", res, f)


def fields(p, cls):
    """name -> offset, members of the base classes included"""
    r = {}
    for b in p.types[cls]["bases"]:
        if b in p.types:
            r.update(fields(p, b))
    r.update({n: x[2] for n, x in layout(p, cls).items()})
    return r


def member(F, name):
    return F.A.of(F.T.mk("mem", ("arg", 0), fields(F.p, F.cls)[name], (), 4, 0))


class Where:
    """what a path's conditions say about the place in the tile: b pixels to the end of the row, a rows to the end"""

    def __init__(self, F, lay):
        T = F.T
        m = lambda n: T.mk("mem", ("arg", 0), lay[n], (), 4, 0)
        self.F, self.sub = F, {}
        self.nx, self.ex, self.ny, self.ey, self.sx = m("nextx"), m("endx"), m("nexty"), m("endy"), m("startx")

    def lin(self, t, last):
        """with nextx = endx - 1 - b, nexty = endy - a"""
        k, r = self.F.v.lin(t)
        out = {}
        def add(x, c):
            out[x] = out.get(x, 0) + c
        for x, c in r.items():
            if x == self.nx:
                add(self.ex, c)
                k -= c
                add("b", -c)
            elif x == self.ny:
                add(self.ey, c)
                add("a", -c)
            else:
                add(x, c)
        if last[0]:
            out.pop("a", None)
        if last[1]:
            out.pop("b", None)
        return k, {x: c for x, c in out.items() if c}

    def allows(self, q, last):
        for t, b in q.facts.items():
            r = self.truth(t, last)
            if r is not None and r != b:
                return False
        return True

    def truth(self, t, last):
        n = self.F.T.node[t]
        if n[0] == "c":
            return bool(n[1])
        if n[0] == "not":
            r = self.truth(n[1], last)
            return None if r is None else not r
        if n[0] not in ("lt", "eq", "ult"):
            return None
        (k, p), (l, r) = self.lin(n[1], last), self.lin(n[2], last)
        k = l - k
        d = {x: r.get(x, 0) - p.get(x, 0) for x in set(p) | set(r)}
        d = {x: c for x, c in d.items() if c}
        if any(x not in ("a", "b") for x in d):
            return None
        lo = hi = k
        for x, c in d.items():
            # at least one
            lo = None if c < 0 or lo is None else lo + c
            hi = None if c > 0 or hi is None else hi + c
        if n[0] in ("lt", "ult"):
            return True if lo is not None and lo > 0 else False if hi is not None and hi <= 0 else None
        return True if lo == hi == 0 and lo is not None else False if lo is not None and lo > 0 or hi is not None and hi < 0 else None

    def equal(self, t, u, plus, last):
        (k, p), (l, r) = self.lin(t, last), self.lin(u, last)
        return k == l + plus and p == r


def run_samples(F, p, n, grid, jit, preset, pos, walk):
    lay = fields(p, F.cls)
    sl = fields(p, "Sample")
    A, T = F.A, F.T
    for name, v in preset.items():
        F.v.preset[("arg", 0), lay[name], 1 if name == "randomized" else 4] = v
    W = Where(F, lay)
    for q in F.paths():
        nx, ny = (q.cell(("arg", 0), lay[x]) for x in ("nextx", "nexty"))
        kept = all(o in (lay["nextx"], lay["nexty"]) for o, v in q.stored(("arg", 0)))
        some = False
        for last in ((True, True), (True, False), (False, True), (False, False)):
            if not W.allows(q, last):
                continue
            some = True
            r = W.truth(q.ret, last)
            if last[0]:
                walk.append((q, r is False and not q.stored(("arg", 1)) and W.equal(ny, W.ny, 0, last), "goes on after the last row"))
                continue
            ok = W.equal(nx, W.sx, 0, last) and W.equal(ny, W.ny, 1, last) if last[1] else W.equal(nx, W.nx, 1, last) and W.equal(ny, W.ny, 0, last)
            walk.append((q, r is True and kept and ok, "the next pixel is not the one to the right, or the first of the next row"))
            pos.append((q, *positions(F, q, n, grid, jit, W, sl)))
        if not some and pos:
            pass


def positions(F, q, n, grid, jit, W, sl):
    A, T = F.A, F.T
    if {o for o, v in q.stored(("arg", 1))} != {8 * k + c for k in range(n) for c in sl.values()}:
        return False, "not %d samples" % n
    free, used = {}, set()
    drawn = [e for e in q.events if e[0] == "draw"]
    if not all(T.node[e[3]][0] == "ptr" and T.node[e[3]][1] == ("arg", 0) for e in drawn):
        return False, "draws from another generator"
    drawn = {e[2] for e in drawn}
    cells = set()
    for k in range(n):
        at = []
        for c, (name, base) in enumerate((("posx", W.nx), ("posy", W.ny))):
            t = q.cell(("arg", 1), 8 * k + sl[name])
            d = A.mul(A.sub(A.of(t), A.of(base)), A.num(grid[c]))
            hit = None
            if jit:
                for r in drawn - used:
                    x = A.const(A.sub(d, A.of(r)))
                    if x is not None:
                        hit = x
                        used.add(r)
                        break
            else:
                x = A.const(d)
                hit = None if x is None else x - Fraction(1, 2)
            if hit is None:
                return False, "a sample is not %s inside the pixel" % ("a draw of its own" if jit else "the centre of a stratum")
            j = round(hit)
            if abs(hit - j) > Fraction(1, 10**5) or not 0 <= j < grid[c]:
                return False, "a sample lies outside its pixel"
            at.append(j)
        cells.add(tuple(at))
    if len(cells) != grid[0] * grid[1]:
        return False, "a stratum has no sample"
    return True, ""


# ------------------------------------------------------------------------------------------------ the tile of a sampler
def place(e):
    """address expression -> (what it is relative to, offset)"""
    if e[0] == "load":
        return place(e[1])
    if e[0] == "idx" and e[2][0] == "c":
        b, o = place(e[1]) if e[1][0] in ("idx", "fld") else (e[1], 0)
        return b, o + e[2][1]
    if e[0] == "fld":
        b, o = place(e[1]) if e[1][0] in ("idx", "fld") else (e[1], 0)
        return b, o + offset(e)
    return e, 0


def offset(e):
    cls, name = e[2], e[3]
    return next(x[2] for x in PROG.types[cls]["fields"] if x[0] == name)


PROG = None


def tiles(ctx, prog):
    """what the worker thread gives the samplers"""
    global PROG
    PROG = prog
    task = fields(prog, "Renderer_task")
    n = 0
    p, fs = flat(entry_regex([e for e, _, _ in thread_entries(prog)]), keep=[r"^Sampler(Random|Stratified)::Sampler", "^ImageFilm::", "::intersect", "::radiance"], cfg=front.RGB)
    for f in fs:
        for i in f.calls():
            m = re.match(r"^(Sampler(?:Random|Stratified))::\1\(int, int, int, int, int, ", i.callee or "")
            if not m:
                continue
            n += 1
            ctx.count("call sites")
            at = [place(f.ex(o)) for o in i.ops[1:5]]
            names = {v: k for k, v in task.items()}
            got = [names.get(o, "?") for b, o in at]
            ok = got == list(FIELDS) and len({str(b) for b, o in at}) == 1
            ctx.ob(STM, "the tile of " + m.group(1), ok, i.where(), "%s is given %s, %s, %s, %s of its tile" % (m.group(1), *got))
    ctx.need(n >= 2, "where samplers are made")


# ------------------------------------------------------------------------------------------------ filters
RANGE = {"FilterBox": 1, "FilterTent": 2, "FilterGaussian": 2, "FilterMitchell": 2, "FilterLanczos": 4}


def filters(ctx, fns, new):
    for cls, ext in RANGE.items():
        for f in fns("%s::%s" % (cls, cls)):
            F = new(f, cls)
            lay = fields(F.p, cls)
            res, keep = [], []
            A = F.A
            for q in F.paths():
                got = [F.v.num(q.cell(("arg", 0), lay["range_" + c])) for c in "xy"]
                res.append((q, got == [ext, ext], "the filter's extent is %s, not %d" % (got, ext)))
                for n, w in KEPT.get(cls, lambda F: {})(F).items():
                    keep.append((q, F.same([q.cell(("arg", 0), lay[n])], [w]), "the parameter %s is not kept" % n))
            obligation(ctx, EXT, cls, res, f)
            if keep:
                obligation(ctx, WGT, "%s::%s" % (cls, cls), keep, f)
        for f in fns(cls + "::weight"):
            F = new(f, cls)
            res = []
            for q in F.paths():
                C = Case(F, q)
                A = F.A
                opts = [A.num(1)]
                why = "not the product of the filter's weights of both offsets"
                for j in (1, 2):
                    x = C.known(A.absolute(F.inp(j)[0]))
                    ps = PIECES[cls](F, C, x)
                    opts = [A.mul(o, w) for o in opts for w in ps]
                # every piece the path may be in gives the value returned
                res.append((q, bool(opts) and all(C.same([q.ret], [o]) for o in opts), why))
            obligation(ctx, WGT, cls + "::weight", res, f)


def gauss_kept(F):
    A = F.A
    a = F.inp(1)[0]
    e = A.func("exp", [A.mul(A.num(-4), a)])
    return {"alpha": a, "precomputed_exp_x": e, "precomputed_exp_y": e}


KEPT = {"FilterGaussian": gauss_kept, "FilterMitchell": lambda F: {"b": F.inp(1)[0], "c": F.inp(2)[0]}, "FilterLanczos": lambda F: {"tau": F.inp(1)[0]}}


def box(F, C, x):
    return [F.A.num(1)]


def clamp(F, C, v):
    A = F.A
    s = C.sign(v)
    return [v if y == "+" else A.num(0) for y in (s - {"0"} or {"0"})] if s != set("-0+") else [A.extreme(True, A.num(0), v)]


def tent(F, C, x):
    A = F.A
    return [A.div(w, A.num(2)) for w in clamp(F, C, A.sub(A.num(2), x))]


def gaussian(F, C, x):
    A = F.A
    # the two precomputed constants are those of the same extent
    i = 0 if A.zero(A.sub(A.mul(x, x), A.mul(F.inp(1)[0], F.inp(1)[0]))) else 1
    p = member(F, "precomputed_exp_" + "xy"[i])
    e = A.func("exp", [product(A, A.num(-1), member(F, "alpha"), x, x)])
    return clamp(F, C, A.sub(e, p))


def bounds(C, x):
    """constants the path's conditions put the quantity between"""
    A = C.A
    lo, hi = None, None
    for d, k, b in C.rel:
        if k != "lt":
            continue
        for s in (1, -1):
            # the coefficient of the quantity
            (m, c0), = A.reduce(x)[0].items()
            c = A.reduce(d)[0].get(m)
            if c is None or d[1]:
                continue
            rest = A.const(A.sub(d, A.mul(A.num(c / c0), x)))
            if rest is None:
                continue
            v, up = -rest * c0 / c, (c / c0 > 0) == b
            if up:
                lo = v if lo is None else max(lo, v)
            else:
                hi = v if hi is None else min(hi, v)
            break
    return lo, hi


def mitchell(F, C, x):
    A = F.A
    B, K = member(F, "b"), member(F, "c")
    x2, x3 = A.mul(x, x), product(A, x, x, x)

    def poly(k3, k2, k1, k0):
        r = A.num(0)
        for (u, b, c), y in zip((k3, k2, k1, k0), (x3, x2, x, A.num(1))):
            r = A.add(r, A.mul(A.add(A.num(u), A.add(A.mul(A.num(b), B), A.mul(A.num(c), K))), y))
        return A.div(r, A.num(6))
    outer = poly((0, -1, -6), (0, 6, 30), (0, -12, -48), (0, 8, 24))
    inner = poly((12, -9, -6), (-18, 12, 6), (0, 0, 0), (6, -2, 0))
    lo, hi = bounds(C, x)
    r = []
    if hi is None or hi > 1:
        r.append(outer)
    if lo is None or lo < 1:
        r.append(inner)
    return r


def lanczos(F, C, x):
    A = F.A
    tau = member(F, "tau")
    u = A.div(A.mul(A.pi, x), A.num(4))

    def sinc(v):
        return A.div(polar(A, v)[0], v)
    full = A.mul(sinc(A.mul(u, tau)), sinc(u))
    lo, hi = bounds(C, x)
    small = Fraction(1, 1000)
    r = []
    if hi is not None and hi <= small:
        return [A.num(1)]
    if lo is None or lo <= 0:
        r.append(A.num(1))      # nothing keeps the quotient from being one of zeros
    if hi is None or hi > 4:
        r.append(A.num(0))
    if lo is None or lo < 4:
        r.append(full)
    return r


PIECES = {"FilterBox": box, "FilterTent": tent, "FilterGaussian": gaussian, "FilterMitchell": mitchell, "FilterLanczos": lanczos}
