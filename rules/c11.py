"""The input file means what its documentation (src/parsers/README.md) says.

The tables of the generated scanner and parser are decoded and the action of every grammar rule is turned into the
stores and calls it makes, so that the meaning of any text is known without running anything; every key, value,
keyword, attribute and default of the documentation is compared with it, object after object. What the settings
are used for is then read off the paths of the code that consumes them: which class every keyword selects, which
setting reaches which parameter, and what a material, a mask, a texture, a light or an asset is built from."""
import math, re
import front, ir, vn, grammar
from common import *
from c08 import short
from c10 import Geo
from front import AnalysisError

LEVEL = "static-proof-bounded"
ASSUMES = ["the sentences of the comparison cover every key and every keyword of the documentation, alone, together, in both orders and repeated: the grammar itself is read exactly, other combinations follow its rules",
           "atoi, atof and std::string do what they are documented to do",
           "the containers of the standard library hold what was put into them"]

METALS = dict(Ag="SILVER", Al="ALUMINIUM", Au="GOLD", Be="BERYLLIUM", Bi="BISMUTH", Co="COBALT", Cr="CHROMIUM", Cu="COPPER", Fe="IRON",
              Ge="GERMANIUM", Hg="MERCURY", K="POTASSIUM", Li="LITHIUM", Mg="MAGNESIUM", Mn="MANGANESE", Mo="MOLYBDENUM", Na="SODIUM",
              Nb="NIOBIUM", Ni="NICKEL", Pb="LEAD", Pd="PALLADIUM", Pt="PLATINUM", Rh="RHODIUM", Ta="TANTALUM", Ti="TITANIUM", V="VANADIUM",
              W="TUNGSTEN", Zn="ZINC", Zr="ZIRCONIUM")
CHANNELS = dict(R="RED", G="GREEN", B="BLUE", A="ALPHA")


def num(x):
    return ("num", x)


def text(x):
    return ("text", x)


def vec(name, *xs):
    return {(name, 4 * k): num(x) for k, x in enumerate(xs)}


def run(ctx):
    g = grammar.grammar(front.RGB)
    prog = program(front.RGB)
    words = sentences(ctx, g, prog)
    C = Consumers(ctx, prog, words)
    C.defaults()
    C.selections()
    C.session()
    C.checks()
    C.textures()
    C.masks()
    C.duals()
    C.materials()
    C.shapes()
    C.meshes()
    ctx.need("sentences", 250)


# ---- the language
def enum(prog, name):
    d = {k: v for k, v in prog.enums.get(name, [])}
    if not d:
        raise AnalysisError("enumeration " + name)
    return d


def keys(prog):
    """object -> [(text of the pair, what it sets)], by the documentation"""
    img, mat, met, flt = enum(prog, "ImageChannel"), enum(prog, "mat_t"), enum(prog, "metal_t"), enum(prog, "TextureFilter_t")
    K = {}
    K["resolution"] = [("width:640", {("width", 0): num(640)}), ("height: 480", {("height", 0): num(480)})]
    K["camera"] = [("position:[1,-2.5,3e2]", vec("camera_pos", 1, -2.5, 300)), ("target:[.5,0,-7]", vec("camera_tar", .5, 0, -7)),
                   ("up:[0,0,1]", vec("camera_up", 0, 0, 1)), ("fov:72.5", {("fov", 0): num(72.5)})]
    K["filter"] = [("value0:3.5", {("value0", 0): num(3.5)}), ("value1:-2", {("value1", 0): num(-2)})]
    K["filter"] += [("texture:" + k, {("tex_filter", 0): num(flt[v])}) for k, v in (("unfiltered", "UNFILTERED"), ("trilinear", "TRILINEAR"), ("ewa", "EWA"))]
    place = [("position:[1,2,3]", vec("position", 1, 2, 3)), ("rotation:[-90,45.5,30]", vec("rotation", -90, 45.5, 30)),
             ("scale:[2,3,4]", vec("scale", 2, 3, 4)), ("scale:1.5", vec("scale", 1.5, 1.5, 1.5))]
    mask = [('mask:"m/k.tga"', {("mask.mask_tex", 0): text("m/k.tga")}), ("mask:'k' inverted", {("mask.mask_tex", 0): text("k"), ("mask.mask_inv", 0): num(1)})]
    for c, n in CHANNELS.items():
        mask.append(("mask:'k' using channel " + c, {("mask.mask_tex", 0): text("k"), ("mask.mask_chn", 0): num(img[n])}))
        mask.append(('mask:"k" using channel %s inverted' % c, {("mask.mask_tex", 0): text("k"), ("mask.mask_chn", 0): num(img[n]), ("mask.mask_inv", 0): num(1)}))
    K["world"] = [("material:'steel'", {("material_name", 0): text("steel")})] + place + mask
    K["light"] = [("temperature:5500", {("temperature", 0): num(5500)}), ("color:[255,128,0.5]", vec("color", 255, 128, .5))] + place
    K["material"] = [("type:" + k, {("type", 0): num(mat[k.upper()])}) for k in ("matte", "glossy", "metal", "glass")]
    size = {n: s for n, ty, o, s, l in g_types["ParsedMaterial"]["fields"]}["ior"]
    ior = lambda fn, *xs: {("ior", o): (fn, o) + tuple(num(x) for x in xs) for o in range(0, size, 4)}
    K["material"] += [("ior:1.5", ior("cauchy", 1.5, 0, 0)), ("ior:[1.5,.004]", ior("cauchy", 1.5, .004, 0)), ("ior:[1.5,.25,.125]", ior("cauchy", 1.5, .25, .125)),
                      ("ior:[1,2,3][4,5,6]", ior("sellmeier", 1, 2, 3, 4, 5, 6)), ("roughness:.25", {("rough_x", 0): num(.25)}),
                      ("anisotropy:0.75", {("rough_y", 0): num(.75)}), ("diffuse:'wall'", {("diffuse", 0): text("wall")}), ('specular:"dir/f.png"', {("specular", 0): text("dir/f.png")})]
    for k, n in METALS.items():
        for w in dict.fromkeys((k, k.lower(), k.upper(), k.swapcase())):
            K["material"].append(("element:" + w, {("elem", 0): num(met["METAL_" + n])}))
    K["dualmaterial"] = [("first:'a'", {("first", 0): text("a")}), ("second:'b b'", {("second", 0): text("b b")})] + mask
    K["texture"] = [("name:'w'", {("tex_name", 0): text("w")}), ("scale:[2,3]", vec("tex_scale", 2, 3)), ("shift:[-.5,.25]", vec("tex_shift", -.5, .25))]
    return K


PUSH = dict(world="deferred_meshes", light="deferred_meshes", material="deferred_materials", dualmaterial="deferred_dualmats")
g_types = {}


def sentences(ctx, g, prog):
    global g_types
    g_types = g.types
    K = keys(prog)
    where = "%s:%s, function %s" % ("src/parsers/config_parser.tab.cc", g.f.d.get("line", 1), "yy::ConfigParser::parse")

    def norm(d):
        return {k: (("num", float(v[1])) if isinstance(v, tuple) and v[:1] == ("num",) else tuple(("num", float(x[1])) if isinstance(x, tuple) and x[:1] == ("num",) else x for x in v) if isinstance(v, tuple) else v) for k, v in d.items()}

    def entry(e):
        """what a log entry did, without the surroundings"""
        if e[0] == "push":
            return ("push", e[1], norm(e[2]) if isinstance(e[2], dict) else e[2])
        return ("call", e[1], e[2])

    def expect(kind, s, state, log=(), why=""):
        r = g.run(s)
        ctx.count("sentences")
        if r is None:
            ctx.ob("the documented input is accepted", kind, False, where, "`%s` is rejected" % s)
            return None
        st, lg = r
        got = norm({k: v for k, v in st.items() if not k[0].startswith(("cur_", "tex_color")) and v != ("text", "")})
        want = norm(state)
        el = [entry(e) for e in lg]
        wl = [("push", e[1], norm(e[2])) if e[0] == "push" and isinstance(e[2], dict) else e for e in log]
        ok = got == want and el == wl
        diff = ""
        if not ok:
            bad = sorted({k for k in set(got) | set(want) if got.get(k) != want.get(k)})
            diff = "; ".join("%s%s is %s, documented %s" % (k[0], "+%d" % k[1] if k[1] else "", show(got.get(k)), show(want.get(k))) for k in bad[:4])
            if el != wl:
                for a, b in zip(el + [None] * len(wl), wl + [None] * len(el)):
                    if a == b:
                        continue
                    if a and b and a[:2] == b[:2] and isinstance(a[2], dict) and isinstance(b[2], dict):
                        diff += "; ".join("%s of %s is %s, documented %s" % (k[0], a[1], show(a[2].get(k)), show(b[2].get(k))) for k in sorted(set(a[2]) | set(b[2])) if a[2].get(k) != b[2].get(k))
                    else:
                        diff += " %s, documented %s" % (a, b)
                    break
        ctx.ob("a documented setting has its documented meaning", kind, ok, where, "`%s`: %s" % (s, diff[:400]))
        return r

    def reject(kind, s):
        ctx.count("sentences")
        ctx.ob("what the documentation does not allow is rejected", kind, g.run(s) is None, where, "`%s` is accepted" % s)

    # toplevel
    expect("out", 'out: "dir/a b.png"', {("output", 0): text("dir/a b.png")})
    expect("out", "out:'x.ppm'", {("output", 0): text("x.ppm")})
    expect("spp", "spp:49", {("spp", 0): num(49)})
    expect("integrator", "integrator: path", {})
    expect("shape", "shape:'a.obj' shape:\"b.obj\"", {}, [("push", "deferred_shapes", text("a.obj")), ("push", "deferred_shapes", text("b.obj"))])
    expect("material", "material:'a.txt' material : \"b.txt\"", {}, [("push", "children", text("a.txt")), ("push", "children", text("b.txt"))])
    expect("comments", "# spp:3 {\nspp:4#spp:5\n,out:'a'# '\n", {("spp", 0): num(4), ("output", 0): text("a")})
    expect("white space", "\tspp\n:\r\n 4 \n\n out:'a'", {("spp", 0): num(4), ("output", 0): text("a")})
    kinds = {}
    for obj, field, words in (("sampler", "sampler_type", ("random", "stratified")), ("camera", "camera_type", ("perspective", "orthographic", "panorama")),
                              ("filter", "filter_type", ("box", "tent", "gaussian", "mitchell", "lanczos")), ("material", "dist", ("blinn", "beckmann", "ggx"))):
        # keywords whose number is known only to the code that uses it
        for w in words:
            s = "sampler:" + w if obj == "sampler" else "material:{name:'n' distribution:%s}" % w if obj == "material" else "%s:{type:%s}" % (obj, w)
            r = g.run(s)
            ctx.count("sentences")
            d = None
            if r is not None:
                d = r[1][0][2] if obj == "material" and len(r[1]) == 1 else r[0]
            rest = {k: v for k, v in (d or {}).items() if k != (field, 0) and k != ("name", 0)}
            v = d.get((field, 0)) if d else None
            ok = v is not None and v[0] == "num" and not rest
            ctx.ob("the documented input is accepted" if r is None else "a documented setting has its documented meaning", obj, ok, where, "`%s` sets %s" % (s, d))
            if ok:
                kinds[(field, w)] = int(v[1])
        got = [kinds.get((field, w)) for w in words]
        ctx.ob("different keywords select different things", field, len(set(got)) == len(words), where, "%s" % dict(zip(words, got)))
    # objects that set the driver
    for obj in ("resolution", "camera", "filter"):
        for s, d in K[obj]:
            expect(obj, "%s:{%s}" % (obj, s), d)
            expect(obj, "%s : {\n %s,\n}" % (obj, s), d)
        firsts = [x for i, x in enumerate(K[obj]) if not any(set(x[1]) == set(y[1]) for y in K[obj][:i])]
        for o in (firsts, firsts[::-1]):
            d = {}
            for s, x in o:
                d.update(x)
            expect(obj, "%s:{%s}" % (obj, " ".join(s for s, x in o)), d)
            expect(obj, "%s:{%s}" % (obj, ", ".join(s for s, x in o)), d)
    # objects that are collected
    for obj, place in PUSH.items():
        base = {("name", 0): text("n")}
        if obj == "light":
            base[("is_light", 0)] = num(1)
        for s, d in K[obj]:
            e = ("push", place, {**base, **d})
            expect(obj, "%s:{name:'n' %s}" % (obj, s), {}, [e])
            # what follows starts from the defaults again
            expect(obj, "%s:{name:'n', %s}\n,%s:{name:\"n\"}" % (obj, s, obj), {}, [e, ("push", place, base)])
        firsts = [x for i, x in enumerate(K[obj]) if not any(set(x[1]) & set(y[1]) for y in K[obj][:i])]
        for o in (firsts, firsts[::-1]):
            d = dict(base)
            for s, x in o:
                d.update(x)
            expect(obj, "%s:{name:'n' %s}" % (obj, " ".join(s for s, x in o)), {}, [("push", place, d)])
        reject(obj, "%s:{%s}" % (obj, K[obj][0][0]))
    for obj in ("material", "dualmaterial"):
        base = {("name", 0): text("n")}
        s, d = K[obj][0]
        t, e = K[obj][1] if obj == "dualmaterial" else K[obj][8]
        expect(obj, "%s:{%s name:'n'}" % (obj, s), {}, [("push", PUSH[obj], {**base, **d})])
        expect(obj, "%s:{%s name:'n' %s}" % (obj, s, t), {}, [("push", PUSH[obj], {**base, **d, **e})])
    # the mask of one object is not the mask of the next
    m = {("mask.mask_tex", 0): text("k"), ("mask.mask_chn", 0): num(enum(prog, "ImageChannel")["RED"]), ("mask.mask_inv", 0): num(1)}
    n = {("name", 0): text("n")}
    plain = {("mask.mask_tex", 0): text("j")}
    made = {o: ({**n, ("is_light", 0): num(1)} if o == "light" else n) for o in ("world", "light", "dualmaterial")}
    for a in made:
        for b in made:
            expect("mask", "%s:{name:'n' mask:'k' using channel R inverted} %s:{name:'n' mask:'j'}" % (a, b), {}, [("push", PUSH[a], {**made[a], **m}), ("push", PUSH[b], {**made[b], **plain})])
    expect("light", "light:{name:'l' temperature:3000} world:{name:'n'}", {},
           [("push", "deferred_meshes", {("name", 0): text("l"), ("is_light", 0): num(1), ("temperature", 0): num(3000)}), ("push", "deferred_meshes", n)])
    # uniform colours
    for k in ("diffuse", "specular"):
        r = g.run("material:{name:'n' %s:[10,20.5,30]}" % k)
        ctx.count("sentences")
        ok = r is not None and len(r[1]) == 2 and r[1][0][:2] == ("call", "load_texture_uniform") and r[1][1][0] == "push"
        if ok:
            col = [r[1][0][3].get(("tex_color", 4 * j)) for j in range(3)]
            d = r[1][1][2]
            ok = [float(x[1]) for x in col if x] == [10, 20.5, 30] and {x[0] for x in d} == {"name", k + "_uniform"} and d[(k + "_uniform", 0)][0] == "result" and d[(k + "_uniform", 0)][1].startswith("load_texture_uniform")
        ctx.ob("a documented setting has its documented meaning", "material", ok, where, "an array as `%s` of a material: %s" % (k, r))
    # textures are loaded when their object ends
    T = K["texture"]
    for o in (T, T[::-1], [("scale:2", vec("tex_scale", 2, 2))]):
        for lo, hi, pos in [(i, j, k) for i in range(len(o) + 1) for j in range(i, len(o) + 1) for k in range(i, j + 1)]:
            d = {}
            for s, x in o[lo:hi]:
                d.update(x)
            r = g.run("texture:{%s}" % " ".join([s for s, x in o[lo:pos]] + ["src:'f.png'"] + [s for s, x in o[pos:hi]]))
            ctx.count("sentences")
            ok = r is not None and len(r[1]) == 1 and r[1][0][:3] == ("call", "load_texture", (text("f.png"),))
            if ok:
                st = norm({k: v for k, v in r[1][0][3].items() if k[0] != "tex_src"})
                ok = st == norm(d)
            ctx.ob("a documented setting has its documented meaning", "texture", ok, where, "texture with src as pair %d of %s: %s" % (pos + 1, [s for s, x in o], r and r[1]))
    for s in ("texture:{name:'n'}", "resolution:{fov:3}", "camera:{width:4}", "spp:'4'", "out:4", "out:a", "spp:-3", "resolution:{width:2.5}", "camera:{fov:'55'}", "camera:{position:[1,2]}",
              "filter:{type:perspective}", "camera:{type:box}", "sampler:path", "material:{name:'n' element:Xx}", "material:{name:'n' type:plastic}", "light:{name:'n' temperature:-4}",
              "world:{name:'n' temperature:4}", "resolution:{width:3", "{spp:4}", "colour:3", "spp 4", "world:{name:n}", "material:{name:'n' ior:[1,2,3,4]}", "world:{name:'n' inverted}", "'spp':4"):
        reject("errors", s)
    return kinds


def show(v):
    if v is None:
        return "not set"
    if isinstance(v, tuple) and len(v) == 2 and v[0] in ("num", "text"):
        return "%g" % v[1] if v[0] == "num" else repr(v[1])
    return str(v)


# ---- what the settings are used for
STD = [r"^std::", r"^[A-Za-z0-9_:<> ,*&]+ std::", r"^__gnu", r"^img_", r"^(cauchy|sellmeier|is_absolute)\("]
OWN = r"^(ParsedMask|ParsedMaterial|ParsedDualMaterial|MeshWorld|MeshObject|ConfigDriver)$"
MEMBER = re.compile(r"(?:std::(?:__cxx11::)?(basic_string|vector|unordered_map|unordered_set)<.*>::(?!swap|operator\[\]|at\()|(File)::)")
PURE = re.compile(r".*std::(vector|deque)<.*>::(operator\[\]|at)\(|.*std::(__cxx11::)?basic_string<.*>::(c_str|data)\(\) const|[A-Za-z]+::instance\(\)")
SIZES = dict(basic_string=32, vector=24, unordered_map=56, unordered_set=56)


ITER = re.compile(r"std::__detail::(?:_Node_(?:const_)?iterator(?:_base)?<.*>::)?(operator->|operator\*|operator==|operator!=|_Node_const_iterator|_Node_iterator)\(")


class Conf(Geo):
    """paths of the driver: members of the standard library touch only the object they are called on"""

    def __init__(self, prog, f, cfg, types, seed=(), args=(), **kw):
        super().__init__(prog, f, cfg, types, **kw)
        self.seed, self.const_args, self.snaps = list(seed), dict(args), []

    def op(self, st, o):
        if o[0] == "a" and o[1] in self.const_args:
            return self.T.const(self.const_args[o[1]])
        return super().op(st, o)

    def step(self, st, i):
        if i.op == "store":
            v = self.op(st, i.ops[0])
            if self.T.node[v][0] in ("agg", "call") and i.d.get("sz", 8) > 8:
                root, off, vs = self.ptr(self.op(st, i.ops[1]))
                for k in range(0, i.d["sz"], 4):
                    self.store(st, root, off + k, vs, 4, self.T.mk("part", v, k))
                return None
        return super().step(st, i)

    def load(self, st, root, off, vars, size):
        m = st.mem.get(root)
        if m and not self.stable(root) and m.get((off, vars), (0,))[0] != size:
            for (o, vs), c in m.items():
                if vs == vars and o <= off and off + size <= o + c[0] and c[0] > size and self.num(c[1]) is None:
                    return self.T.mk("byte", c[1], off - o, size)
        return super().load(st, root, off, vars, size)

    def fresh(self):
        s = super().fresh()
        for root, off, size, val in self.seed:
            self.store(s, root, off, (), size, self.T.const(val), touched=False)
        return s

    def call(self, st, i):
        m = MEMBER.match(re.sub(r"^[A-Za-z0-9_:<> ,*&]*?(?=std::(__cxx11::)?(basic_string|vector|unordered))", "", i.callee or "")) if i.callee and "virt" not in i.d and i.ops else None
        for name, rx in self.snaps:
            if re.match(rx, i.callee or ""):
                st.events.append(("snap", name, i, st.copy(), tuple(self.op(st, o) for o in i.ops)))
        if i.callee and PURE.match(i.callee) and "virt" not in i.d:
            # an element, a text or an instance is the same whenever it is asked for
            args = tuple(self.op(st, o) for o in i.ops)
            t = self.T.mk("call", i.callee, args)
            st.events.append(("call", i, i.callee, args, t))
            return t
        it = ITER.search(i.callee or "")
        if it and i.ops:
            # an iterator is the one word it holds
            a = [self.op(st, o) for o in i.ops]
            held = []
            for x in a:
                if self.T.node[x][0] == "ptr":
                    r, off, vs = self.ptr(x)
                    x = self.load(st, r, off, vs, 8)
                held.append(x)
            name = it.group(1)
            if name in ("operator->", "operator*", "operator==", "operator!="):
                t = self.T.mk("call", "iterator " + name, tuple(held))
                st.events.append(("call", i, i.callee, tuple(held), t))
                return t
            if name.startswith("_Node_") and len(a) == 2:
                r, off, vs = self.ptr(a[0])
                self.store(st, r, off, vs, 8, held[1])
                return None
        if not m:
            return super().call(st, i)
        mem, ver = {r: dict(x) for r, x in st.mem.items()}, dict(st.ver)
        r = super().call(st, i)
        if r is not None and m.group(1) == "basic_string" and re.search(r"::(size|length)\(\) const", i.callee):
            # a text without characters is empty
            a = self.op(st, i.ops[0])
            st.events.append(("call", i, re.sub(r"::(size|length)\(\)", "::empty()", i.callee), (a,), self.T.mk("eq", *sorted((self.T.const(0), r)))))
        size = SIZES.get(m.group(1)) or self.types.get("File", {}).get("size") or 32
        root, off, vs = self.ptr(self.op(st, i.ops[0]))
        const = (i.callee or "").endswith(" const")
        ret = None
        if i.d.get("sret") or (m.group(1) == "basic_string" and "::substr" in i.callee):
            return r
        st.mem, st.ver = mem, ver
        if not const:
            for k in range(0, size, 4):
                self.store(st, root, off + k, vs, 4, self.T.mk("part", st.seq, k))
        return r


def events(q, rx=None):
    return [e for e in q.events if e[0] == "call" and (rx is None or re.match(rx, e[2]))]


def evaluate(T, t, env):
    """a term with the given leaves, None when it depends on something else"""
    memo = {}

    def go(t):
        if t in env:
            return env[t]
        if t in memo:
            return memo[t]
        n = T.node[t]
        r = None
        if n[0] == "c":
            r = n[1]
        elif n[0] in ("lt", "eq", "fadd", "add", "fsub", "sub", "fmul", "mul", "fdiv", "srem", "urem", "sdiv", "and", "or", "xor"):
            a, b = go(n[1]), go(n[2])
            if n[0] == "eq" and (a is None or b is None):
                # a comparison with the constants true or false
                r = None
            elif a is not None and b is not None:
                try:
                    r = {"lt": lambda: a < b, "eq": lambda: a == b, "fadd": lambda: a + b, "add": lambda: a + b, "fsub": lambda: a - b, "sub": lambda: a - b, "fmul": lambda: a * b, "mul": lambda: a * b,
                         "fdiv": lambda: a / b, "srem": lambda: math.fmod(a, b), "urem": lambda: a % b, "sdiv": lambda: int(a / b), "and": lambda: int(a) & int(b), "or": lambda: int(a) | int(b), "xor": lambda: int(bool(a)) ^ int(bool(b))}[n[0]]()
                except ZeroDivisionError:
                    r = None
        elif n[0] in ("not",):
            a = go(n[1])
            r = None if a is None else not a
        elif n[0] == "fneg":
            a = go(n[1])
            r = None if a is None else -a
        elif n[0] in ("fptosi", "fptoui"):
            a = go(n[1])
            r = None if a is None else int(a)
        elif n[0] == "call" and n[1] in ("sqrtf", "sqrt") and len(n) == 3:
            a = go(n[2][0])
            r = None if a is None or a < 0 else math.sqrt(a)
        elif n[0] in ("minnum", "maxnum"):
            a, b = go(n[1]), go(n[2])
            r = None if a is None or b is None else (min if n[0] == "minnum" else max)(a, b)
        elif n[0] == "call" and re.match(r"(minnum$|maxnum$|llvm\.(min|max)num\.f\d+|f(min|max)f?$|std::f(min|max)\()", n[1]) and len(n[2]) == 2:
            a, b = go(n[2][0]), go(n[2][1])
            r = None if a is None or b is None else (min if "min" in n[1] else max)(a, b)
        elif n[0] == "call" and n[1] in ("truncf", "trunc", "floorf", "floor", "ceilf", "ceil", "roundf", "round", "fabsf", "fabs") and len(n) == 3:
            a = go(n[2][0])
            r = None if a is None else {"t": math.trunc, "c": math.ceil, "r": lambda x: math.floor(abs(x) + .5) * (1 if x >= 0 else -1)}.get(n[1][0], abs if n[1].startswith("fab") else math.floor)(a)
        if isinstance(r, bool):
            r = int(r)
        memo[t] = r
        return r
    return go(t)


def consistent(q, env):
    """the path can be the one taken when the leaves have these values"""
    T = q.vn.T
    for t, v in q.facts.items():
        x = evaluate(T, t, env)
        if x is not None and bool(x) != bool(v):
            return False
    return True


def cls(e):
    """class of a constructor call"""
    m = re.match(r"([A-Za-z0-9_]+)::([A-Za-z0-9_]+)\(", e[2])
    return m.group(1) if m and m.group(1) == m.group(2) else None


class Built:
    """the objects a path creates: address -> (class, arguments of the constructor)"""

    def __init__(self, q):
        self.q, self.T = q, q.vn.T
        self.obj = {}
        for e in events(q):
            c = cls(e)
            if c and e[3] and self.T.node[e[3][0]][0] in ("call", "ptr"):
                self.obj.setdefault(e[3][0], []).append((c, e[3][1:], e))

    def of(self, t):
        """(class, arguments) of the object at the address"""
        l = [x for x in self.obj.get(t, ()) if x[0]]
        return l[-1] if l else None


class Consumers:
    def __init__(self, ctx, prog, words, cfg=None):
        self.ctx, self.prog, self.words, self.cfg = ctx, prog, words, cfg or front.RGB
        self.D = {n: (o, s, ty) for n, ty, o, s, l in prog.types["ConfigDriver"]["fields"]}

    def need(self, *names):
        for n in names:
            self.ctx.need(n in self.D, "ConfigDriver::" + n)

    def paths(self, fn, keep, seed=(), args=(), one=True, snaps=(), also=(), pick=None):
        key = (fn, tuple(keep))
        self.cache = getattr(self, "cache", {})
        if key not in self.cache:
            p, fs = flat(fn, cfg=self.cfg, keep=STD + list(keep), also=also)
            if pick:
                fs = [f for f in fs if re.match(pick, f.name)]
            self.cache[key] = (p, fs)
        p, fs = self.cache[key]
        if len(fs) != 1:
            raise AnalysisError("%d functions match %s" % (len(fs), fn))
        v = Conf(self.prog, fs[0], self.cfg, p.types, seed=[(("arg", 0), o, s, x) for o, s, x in seed], args=args)
        v.snaps = list(snaps)
        v.through = v.fills()
        self.ctx.count("functions")
        S = v.segments()
        self.ctx.count("paths", len(S))
        return v, S

    def at(self, f):
        return "%s:%d, function %s" % (re.sub(r"^.*/src/", "src/", f.file), f.line, re.sub(r"\(.*", "", f.name))

    def field(self, v, name, k=0, size=None):
        o, s, ty = self.D[name]
        return v.T.mk("mem", ("arg", 0), o + k, (), size or (4 if s > 4 and "basic_string" not in ty else s), 0)

    def is_ptr(self, v, t, name):
        n = v.T.node[t]
        return n[0] == "ptr" and n[1] == ("arg", 0) and n[2] == self.D[name][0] and not n[3]

    # -- defaults
    def defaults(self):
        ctx, T = self.ctx, None
        w = self.words
        flt, met, mat, img = enum(self.prog, "TextureFilter_t"), enum(self.prog, "metal_t"), enum(self.prog, "mat_t"), enum(self.prog, "ImageChannel")
        material = {"elem": met["METAL_GOLD"], "type": mat["MATTE"], "rough_x": 0, "rough_y": -1, "dist": w.get(("dist", "beckmann")), "diffuse_uniform": 0, "specular_uniform": 0}
        mask = {"mask_chn": img["ALPHA"], "mask_inv": 0}
        mesh = {"scale": (1, 1, 1), "position": (0, 0, 0), "rotation": (0, 0, 0), "is_light": 0, "color": (255, 255, 255), "mask": mask}
        driver = {"width": 800, "height": 600, "spp": 121, "sampler_type": w.get(("sampler_type", "stratified")), "camera_type": w.get(("camera_type", "perspective")), "filter_type": w.get(("filter_type", "mitchell")),
                  "tex_filter": flt["TRILINEAR"], "fov": 55, "value0": .33, "value1": .33, "camera_pos": (0, 0, 0), "camera_tar": (0, 0, 1), "camera_up": (0, 1, 0), "tex_scale": (1, 1), "tex_shift": (0, 0),
                  "cur_mask": mask, "cur_mat": material, "cur_mesh": mesh, "cur_dualmat": {"mask": mask}}
        strings = {"output": "out.ppm"}
        for c, want in (("ConfigDriver", driver), ("ParsedMaterial", material), ("MeshWorld", mesh), ("ParsedMask", mask), ("ParsedDualMaterial", {"mask": mask})):
            try:
                v, S = self.paths("^%s::%s\\(\\)" % (c, c), ["^(File|PathTracer)::"])
            except AnalysisError:
                if c in ("ParsedDualMaterial",):
                    continue        # no constructor of its own: covered as a member of the driver
                raise
            T = v.T
            for q in S:
                if q.kind != "ret":
                    continue
                self.members(v, q, c, 0, want, c)
                for n, s in strings.items() if c == "ConfigDriver" else ():
                    got = None
                    for e in events(q):
                        if "basic_string" in e[2] and len(e[3]) > 1 and self.is_ptr(v, e[3][0], n):
                            x = T.node[e[3][1]]
                            got = self.literal(x[1][1]) if x[0] == "ptr" and x[1][0] == "g" else "?"
                    ctx.ob("a setting that is not given has its documented value", "%s::%s" % (c, n), got == s, v.f.name, "%s, documented %r" % (got, s))
                if c == "ConfigDriver":
                    b = Built(q)
                    x = b.of(q.cell(("arg", 0), self.D["integrator"][0], 8))
                    ctx.ob("a setting that is not given has its documented value", c + "::integrator", x is not None and x[0] == "PathTracer", v.f.name, "the integrator is %s" % (x and x[0]))
                ior = {n: o for n, ty, o, s, l in self.prog.types["ParsedMaterial"]["fields"]}["ior"]
                for base in [self.D["cur_mat"][0]] if c == "ConfigDriver" else [0] if c == "ParsedMaterial" else []:
                    t = q.cell(("arg", 0), base + ior, 4)
                    e = [e for e in events(q, r"cauchy\(") if e[4] in self.inner(T, t) or (T.node[t][0] == "mem")]
                    ok = any([v.num(a) is not None and abs(v.num(a) - k) < 1e-6 for a, k in zip(e1[3][-3:], (1.45, 0, 0))] == [True] * 3 for e1 in e)
                    ctx.ob("a setting that is not given has its documented value", c + "::ior", ok, v.f.name, "index of refraction %s" % T.show(t)[:80])

    def inner(self, T, t):
        out, q = set(), [t]
        while q:
            x = q.pop()
            if x in out:
                continue
            out.add(x)
            n = T.node[x]
            if n[0] in ("xv", "el", "part"):
                q.append(n[1])
            elif n[0] == "agg":
                q += [y for k, y in n[1]]
            elif n[0] == "mem" and n[1][0] == "val":
                q.append(n[1][1])
        return out

    def literal(self, link):
        g = self.prog.globals.get(link)
        return g.get("str") if g else None

    def members(self, v, q, c, base, want, path):
        F = {n: (o, s, ty) for n, ty, o, s, l in self.prog.types[c]["fields"]}
        for n, x in want.items():
            self.ctx.need(n in F, "%s::%s" % (c, n))
            o, s, ty = F[n]
            if isinstance(x, dict):
                self.members(v, q, {"cur_mask": "ParsedMask", "mask": "ParsedMask", "cur_mat": "ParsedMaterial", "cur_mesh": "MeshWorld", "cur_dualmat": "ParsedDualMaterial"}[n], base + o, x, path + "::" + n)
                continue
            xs = x if isinstance(x, tuple) else (x,)
            sz = 4 if isinstance(x, tuple) else s
            got = [v.num(q.cell(("arg", 0), base + o + 4 * k, sz)) for k in range(len(xs))]
            ok = all(a is not None and b is not None and abs(a - b) < 1e-6 for a, b in zip(got, xs))
            self.ctx.ob("a setting that is not given has its documented value", path + "::" + n, ok, v.f.name, "%s is %s, documented %s" % (n, got, list(xs)))

    # -- keywords
    def selections(self):
        ctx = self.ctx
        self.need("filter_type", "camera_type", "value0", "value1", "camera_pos", "camera_tar", "camera_up", "width", "height", "fov")
        rule = "a keyword selects the class of its name, with the settings documented for it"
        F = dict(box=("FilterBox",), tent=("FilterTent",), gaussian=("FilterGaussian", "value0"), mitchell=("FilterMitchell", "value0", "value1"), lanczos=("FilterLanczos", "value0"))
        for w, want in F.items():
            k = self.words.get(("filter_type", w))
            if k is None:
                continue
            v, S = self.paths("^ConfigDriver::build_filter\\(", ["^Filter[A-Za-z0-9]*::"], seed=[(self.D["filter_type"][0], self.D["filter_type"][1], k)])
            for q in S:
                x = Built(q).of(q.ret)
                ok = x is not None and x[0] == want[0] and len(x[1]) == len(want) - 1 and all(a == self.field(v, n) for a, n in zip(x[1], want[1:]))
                ctx.ob(rule, "filter " + w, ok, q.where(), "`%s` builds %s(%s)" % (w, x and x[0], ", ".join(v.T.show(a) for a in (x[1] if x else ()))))
        Cm = dict(perspective="CameraPerspective", orthographic="CameraOrthographic", panorama="Camera360")
        for w, want in Cm.items():
            k = self.words.get(("camera_type", w))
            if k is None:
                continue
            v, S = self.paths("^ConfigDriver::build_camera\\(", ["^Camera[A-Za-z0-9]*::"], seed=[(self.D["camera_type"][0], self.D["camera_type"][1], k)])
            for q in S:
                x = Built(q).of(q.ret)
                ok = x is not None and x[0] == want and len(x[1]) >= 5
                if ok:
                    a = x[1]
                    ok = all(self.is_ptr(v, t, n) for t, n in zip(a, ("camera_pos", "camera_tar", "camera_up"))) and a[3] == self.field(v, "width") and a[4] == self.field(v, "height")
                    if ok and w == "perspective":
                        c = v.A.const(v.A.div(v.A.of(a[5]), v.A.of(self.field(v, "fov")))) if len(a) == 6 else None
                        ok = c is not None and abs(float(c) - math.pi / 180) < 1e-6
                ctx.ob(rule, "camera " + w, ok, q.where(), "`%s` builds %s(%s)" % (w, x and x[0], ", ".join(v.T.show(a) for a in (x[1] if x else ()))))
        # samplers: chosen by the rendering threads
        R = {n: (o, s) for n, ty, o, s, l in self.prog.types["Renderer"]["fields"]}
        pr, fr = flat("^Renderer::render\\(", cfg=self.cfg, keep=STD + ["^[A-Z][A-Za-z0-9]*::", "^executor", "^format_seconds"])
        ctx.need(len(fr) == 1, "Renderer::render")
        vr = Conf(self.prog, fr[0], self.cfg, pr.types)
        place, entry = {}, None
        for q in vr.segments():
            for e in events(q, r"std::thread::thread<"):
                fn = [o for o in e[1].ops if o[0] == "fn"]
                if not fn:
                    continue
                k0 = e[1].ops.index(fn[0])
                entry = fn[0][2]
                for k, a in enumerate(e[3][k0 + 1:]):
                    n = vr.T.node[a]
                    if n[0] == "ptr" and n[1] == ("arg", 0):
                        for m, (o, s) in R.items():
                            if o == n[2]:
                                place.setdefault(m, set()).add(k)
        ctx.need(entry in self.prog.all, "the function of the rendering threads")
        sam, spp = place.get("sampler_t", set()), place.get("spp", set())
        ctx.ob(rule, "sampler parameter", len(sam) == 1 and len(spp) == 1, fr[0].name, "the threads receive the kind of sampler as parameters %s and the samples per pixel as %s" % (sorted(sam), sorted(spp)))
        if len(sam) != 1 or len(spp) != 1:
            return
        sam, spp = next(iter(sam)), next(iter(spp))
        for w, want in dict(random="SamplerRandom", stratified="SamplerStratified").items():
            k = self.words.get(("sampler_type", w))
            if k is None:
                continue
            name = self.prog.all[entry].name
            v, S = self.paths("^" + re.escape(name) + "$", ["^[A-Z][A-Za-z0-9]*::", "^calculate_differentials"], args={sam: k})
            seen = set()
            for q in S:
                for e in events(q, r"Sampler[A-Za-z0-9]+::Sampler"):
                    c = cls(e)
                    if c:
                        seen.add(c)
                        ctx.ob(rule, "sampler " + w, c == want and any(a == v.T.mk("in", spp) for a in e[3]), e[1].where(), "`%s` builds a %s(%s)" % (w, c, ", ".join(v.T.show(a)[:30] for a in e[3][1:])))
            ctx.need(seen, "sampler of the rendering threads")
        v, S = self.paths("^Renderer::set_sampler\\(", [])
        ok = all(q.cell(("arg", 0), R["sampler_t"][0], R["sampler_t"][1]) == v.T.mk("in", 1) for q in S)
        ctx.ob(rule, "sampler of the renderer", ok, v.f.name, "the renderer keeps another kind of sampler")

    # -- the files and what is built from them
    def target(self, q, v, st_events, obj):
        """what a File object stands for after the events: ("dir",)+names or ("path", text)"""
        T = v.T
        val = {}

        def text(t):
            for e in st_events:
                if e[0] == "call" and e[4] == t and "::c_str() const" in e[2]:
                    return e[3][0]
            return t

        def of(t):
            return ("dir",) if self.is_ptr(v, t, "current_dir") else val.get(t)
        for e in st_events:
            if e[0] != "call" or not e[2].startswith("File::"):
                continue
            a = e[3]
            if e[2].startswith("File::File(File") or e[2].startswith("File::operator=(File"):
                val[a[0]] = of(a[1])
            elif e[2].startswith("File::File(char const*"):
                val[a[0]] = ("path", text(a[1]))
            elif e[2].startswith("File::append("):
                old = of(a[0])
                val[a[0]] = old + (text(a[1]),) if old else None
        return val.get(obj)

    def resolved(self, q, v, obj, name, upto):
        """the File object is the named one: below the directory of the input unless absolute"""
        ev = q.events[:q.events.index(upto)] if upto in q.events else q.events
        t = self.target(q, v, ev, obj)
        absolute = None
        for e in ev:
            if e[0] == "call" and e[2].startswith("is_absolute("):
                x = [y for y in ev if y[0] == "call" and y[4] == e[3][0] and "::c_str() const" in y[2]]
                if (x and x[0][3][0] == name) or e[3][0] == name:
                    b, pos = v.cond(e[4])
                    f = q.facts.get(b)
                    absolute = None if f is None else bool(f) == pos
        return absolute is not None and t == (("path", name) if absolute else ("dir", name))

    def session(self):
        ctx = self.ctx
        self.need("width", "height", "spp", "sampler_type", "output", "integrator", "children", "current_dir")
        keep = ["^(File|Camera|Filter|Renderer|Scene|Sphere|Console|Mesh)[A-Za-z0-9]*::", "^yy::", "^ConfigDriver::(build_|load_|parse_and|scan_)"]
        v, S = self.paths("^ConfigDriver::parse\\(", keep, snaps=[("made", r"Renderer::Renderer\("), ("sampler", r"Renderer::set_sampler\("), ("integrator", r"Renderer::inherit_integrator\(")])
        T = v.T
        rule = "the renderer gets the settings as they are when every file has been read"
        cur = lambda st, n, s=4: v.load(st, ("arg", 0), self.D[n][0], (), s)
        seen = set()
        changed = []
        for q in S:
            for e in q.events:
                if e[0] != "snap":
                    continue
                _, name, ins, st, args = e
                seen.add(name)
                if name == "made":
                    out = T.node[args[4]] if len(args) > 4 else ("?",)
                    src = [x for x in q.events if x[0] == "call" and x[4] == args[4]] if len(args) > 4 else []
                    oko = bool(src) and re.search(r"::(c_str|data)\(", src[0][2]) is not None and self.is_ptr(v, src[0][3][0], "output")
                    for k, n in ((1, "width"), (2, "height"), (3, "spp")):
                        ctx.ob(rule, n, args[k] == cur(st, n), ins.where(), "%s of the renderer is %s, the setting is %s" % (n, T.show(args[k])[:60], T.show(cur(st, n))[:60]))
                    ctx.ob(rule, "output", oko, ins.where(), "the output file is %s" % (T.show(args[4])[:60] if len(args) > 4 else "not given"))
                    changed.append((q, st, ins))
                elif name == "sampler":
                    ctx.ob(rule, "sampler_type", args[1] == cur(st, "sampler_type", self.D["sampler_type"][1]), ins.where(), "the sampler is %s" % T.show(args[1])[:60])
                else:
                    ctx.ob(rule, "integrator", args[1] == cur(st, "integrator", 8), ins.where(), "the integrator is %s" % T.show(args[1])[:60])
            for e in events(q, r"Renderer::inherit_(camera|filter)\("):
                what = re.match(r"Renderer::inherit_(\w+)", e[2]).group(1)
                seen.add(what)
                src = [x[2] for x in q.events if x[0] == "call" and x[4] == e[3][1]]
                ctx.ob(rule, what, bool(src) and src[0].startswith("ConfigDriver::build_" + what), e[1].where(), "the %s comes from %s" % (what, src))
        for w in ("made", "sampler", "integrator", "camera", "filter"):
            ctx.ob(rule, "every setting is handed over", w in seen, self.at(v.f), "the renderer never gets its %s" % w)
        f = v.f
        calls = {}
        for i in f.calls():
            for k, rx in (("parse", r"yy::ConfigParser::parse\("), ("made", r"Renderer::Renderer\("), ("camera", r"ConfigDriver::build_camera"), ("filter", r"ConfigDriver::build_filter"), ("materials", r"ConfigDriver::build_materials"),
                          ("dualmaterials", r"ConfigDriver::build_dualmaterials"), ("shapes", r"ConfigDriver::parse_and_allocate_obj"), ("meshes", r"ConfigDriver::build_meshes"), ("sampler", r"Renderer::set_sampler")):
                if re.match(rx, i.callee or ""):
                    calls.setdefault(k, []).append(i)

        order = "what depends on other objects is built after them"
        for a, b in (("parse", "made"), ("parse", "sampler"), ("parse", "camera"), ("parse", "filter"), ("parse", "materials"), ("materials", "dualmaterials"), ("dualmaterials", "shapes"), ("materials", "shapes"), ("shapes", "meshes"), ("dualmaterials", "meshes")):
            ctx.ob(order, "every step is there", a in calls and b in calls, self.at(f), "%s is never done" % (b if a in calls else a))
            for x in calls.get(a, ()):
                for y in calls.get(b, ()):
                    ctx.ob(order, "%s before %s" % (a, b), f.reachable_from(x, y) and not f.reachable_from(y, x), y.where(), "%s is not always done when %s runs" % (a, b))
        # children files
        kids = 0
        for q in S:
            ps = events(q, r"yy::ConfigParser::parse\(")
            for e in ps:
                ex = [x for x in events(q, r"File::exists\(") if q.events.index(x) < q.events.index(e)]
                if not ex:
                    continue
                kids += 1
                obj = ex[-1][3][0]
                ap = [x for x in events(q, r"File::absolute_path\(") if x[3][0] == obj]
                name = [x[3][0] for x in q.events if x[0] == "call" and "::c_str() const" in x[2]]
                ok = any(self.resolved(q, v, obj, n, ex[-1]) for n in dict.fromkeys(name)) and bool(ap)
                fd = [x for x in q.events if x[0] == "call" and "basic_string" in x[2] and len(x[3]) > 1 and self.is_ptr(v, x[3][0], "file") and ap and x[3][1] == ap[-1][4]]
                ctx.ob("a relative path starts at the directory of the input file", "children files", ok and bool(fd), e[1].where(), "the file that is read is %s" % (self.target(q, v, q.events, obj),))
        ctx.ob("every file, material and shape named is used", "children files", kids > 0, self.at(f), "no children file is parsed")
        base = [q for q in S if q.start == 0]
        for q in base:
            ev = events(q)
            first = next((e for e in ev if e[2].startswith("yy::ConfigParser::parse(")), None)
            if first is None:
                continue
            before = ev[:ev.index(first)]
            put = [e for e in before if e[2].startswith("File::operator=(") and self.is_ptr(v, e[3][0], "current_dir")]
            ok = False
            if put:
                par = [e for e in before if e[2].startswith("File::get_parent(") and e[3][0] == put[-1][3][1]]
                of = par[-1][3][1] if par else None
                made = [e for e in before if e[2].startswith("File::File(char const*") and e[3][0] == of]
                txt = [e for e in before if made and e[4] == made[-1][3][1] and re.search(r"::(c_str|data)\(", e[2])]
                ok = bool(txt) and txt[0][3][0] == T.mk("ptr", ("arg", 1), 0, ())
            ctx.ob("a relative path starts at the directory of the input file", "the directory", ok, first[1].where(), "the directory relative paths start at is not the one of the input file when it is parsed")
        for n in ("children", "deferred_shapes"):
            self.covered(v, S, n)
        self.kept_shapes(v, S)
        self.session_paths = (v, changed)

    def covered(self, v, S, name):
        """a loop that indexes the vector visits every element of it"""
        T, ctx = v.T, self.ctx
        vecs = set()
        for q in S:
            for e in events(q):
                if "vector" in e[2] and self.is_ptr(v, e[3][0] if e[3] else None, name):
                    vecs.add(e[3][0])
                if re.search(r"vector<.*>::vector\(std::vector<.*> const&\)", e[2]) and self.is_ptr(v, e[3][1], name):
                    vecs.add(e[3][0])
        rule = "every file, material and shape named is used"
        idx = {}
        for q in S:
            for e in events(q, r".*std::vector<.*>::(operator\[\]|at)\("):
                if e[3][0] in vecs:
                    idx.setdefault((e[3][0], e[3][1]), e[1])
        for (vec, i), ins in idx.items():
            n = T.node[i]
            if n[0] != "phi":
                ctx.ob(rule, name, False, ins.where(), "the element used is %s" % T.show(i)[:60])
                continue
            head, pid = n[1], n[2]
            ok, why = True, ""
            size = None
            for q in S:
                if q.kind == "cut" and q.dest == head and pid in q.phis:
                    x = q.phis[pid]
                    if q.start == head:
                        good = self.succ_of(v, x, i)
                        ok, why = (ok and good, why or ("" if good else "the next element is %s" % T.show(x)[:60]))
                    else:
                        good = v.num(x) == 0
                        ok, why = (ok and good, why or ("" if good else "the first element is %s" % T.show(x)[:60]))
                if q.start == head and not (q.kind == "cut" and q.dest == head):
                    szs = [x for t in q.facts for x in list(self.leaves(T, t)) + list(T.node[t][1:3]) if isinstance(x, int) and self.size_of(v, q, x, vec)]
                    if any(self.changes(e, vec) for p in S if p.start == head and p.dest == head for e in events(p)):
                        szs = []
                    good = any((T.node[t][0] in ("lt", "ult", "slt") and T.node[t][1] == i and T.node[t][2] in szs and not b) or (T.node[t][0] == "eq" and i in T.node[t][1:3] and set(T.node[t][1:3]) & set(szs) and b) for t, b in q.facts.items())
                    # a return inside the body, or another loop in it, is no end of this one
                    inside = any(e[3] and e[3][0] == vec and e[3][1] == i for e in events(q, r".*std::vector<.*>::(operator\[\]|at)\("))
                    if not good and not (inside and q.kind == "cut"):
                        ok, why = False, why or "it ends without having reached the last element"
            ctx.ob(rule, name, ok, ins.where(), why)

    def size_of(self, v, q, x, vec):
        """the term is the number of elements of the vector"""
        n = v.T.node[x]
        if n[0] == "call":
            return re.search(r"::size(\(\) const)?$", n[1]) is not None and n[2][0] == vec
        if n[0] == "pre":
            i = v.f.ins[n[1]]
            return re.search(r"::size\(\) const$", i.callee or "") is not None and v.op(q.st, i.ops[0]) == vec
        return n[0] in ("trunc", "zext", "sext") and self.size_of(v, q, n[1], vec)

    def changes(self, e, vec):
        return e[3] and e[3][0] == vec and not e[2].endswith(" const") and not re.search(r"::(operator\[\]|at|begin|end|front|back)\(", e[2])

    def succ_of(self, v, x, i):
        l = v.lin(x)
        return l == (1, {i: 1})

    def used(self, q, elem):
        """the shape of the element was used by an object, None if not known"""
        T = q.vn.T
        ask = [e for e in events(q, r".*std::unordered_set<.*>::(find|count)\(") if self.is_ptr(q.vn, e[3][0], "used_shapes") and e[3][1] == elem]
        for a in ask:
            if "::count(" in a[2]:
                for t, b in q.facts.items():
                    n = T.node[t]
                    if t == a[4] or (n[0] in ("lt", "ult") and n[2] == a[4] and q.vn.num(n[1]) == 0):
                        return b
                    if n[0] == "eq" and a[4] in n[1:3]:
                        return not b
            for e in events(q):
                m = ITER.search(e[2])
                if m and m.group(1) in ("operator==", "operator!=") and a[4] in e[3]:
                    f = self.fact(q, e[4])
                    if f is not None:
                        return f is (m.group(1) == "operator!=")
        return None

    def kept_shapes(self, v, S):
        """shapes of objects go to the scene, the others are deleted"""
        T, ctx = v.T, self.ctx
        rule = "a shape stays as long as an object has it"
        n = 0
        for q in S:
            for e in events(q):
                a = e[3][1] if e[2].startswith("Scene::inherit_shape(") else e[3][0] if re.search(r"::~[A-Za-z]+\(\)$|^operator delete", e[2]) and e[3] else None
                if a is None:
                    continue
                x = T.node[a]
                if x[0] != "mem" or x[1][0] != "val" or T.node[x[1][1]][0] != "call" or not str(T.node[x[1][1]][1]).startswith("iterator "):
                    continue
                n += 1
                u = self.used(q, x[1][1])
                keep = e[2].startswith("Scene::")
                ctx.ob(rule, "kept" if keep else "deleted", u is keep, e[1].where(), "a shape that is %s is %s" % ({None: "perhaps used", True: "used", False: "not used"}[u], "kept" if keep else "deleted"))
        ctx.at_least(rule, 2)

    def shapes(self):
        ctx = self.ctx
        v, S = self.paths("^ConfigDriver::parse_and_allocate_obj\\(", ["^(File|ParserObj|Mesh|Console)::"])
        T = v.T
        name = T.mk("ptr", ("arg", 1), 0, ())
        Mo = {n: o for n, ty, o, s, l in self.prog.types["MeshObject"]["fields"]}
        n = 0
        rule = "a shape file contributes its shapes with their materials"
        for q in S:
            ev = events(q)
            for e in ev:
                if e[2].startswith("ParserObj::start_parsing("):
                    src = [x for x in ev if x[4] == e[3][1] and x[2].startswith("File::absolute_path(")]
                    ok = bool(src) and self.resolved(q, v, src[0][3][0], name, src[0])
                    ctx.ob("a relative path starts at the directory of the input file", "shape files", ok, e[1].where(), "the shape file that is read is %s" % (self.target(q, v, q.events, src[0][3][0]) if src else None,))
            nx = [e for e in ev if e[2].startswith("ParserObj::get_next_mesh(") and self.fact(q, e[4]) is True]
            put = [e for e in ev if re.search(r"unordered_map<.*>::(insert|emplace|operator\[\])", e[2]) and self.is_ptr(v, e[3][0], "shapes")]
            if not nx or not put:
                continue
            n += 1
            got = {k: [e for e in ev if e[2].startswith("ParserObj::" + k)] for k in ("get_material_no", "get_face_no", "get_materials(", "get_material_association", "get_mesh_name")}
            obj = [e[2] for e in q.events if e[0] == "store" and e[3] == nx[0][3][1] and T.node[e[2]][0] == "ptr" and T.node[e[2]][1][0] in ("alloca", "val") and T.node[e[2]][2] == Mo["mesh"]]
            obj += [T.mk("ptr", ("val", e[2]), 0, ()) for e in q.events if e[0] == "store" and e[3] == nx[0][3][1] and T.node[e[2]][0] != "ptr" and Mo["mesh"] == 0]
            if not obj:
                ctx.ob(rule, "mesh", False, put[0][1].where(), "the mesh that was read is not the one kept")
                continue
            r = T.node[obj[0]][1]
            put_at = {}
            for e in q.events:
                if e[0] == "store" and e[3] is not None:
                    pr, po, pv = v.ptr(e[2])
                    if pr == r and not pv:
                        put_at[po] = e[3]
            mats, asc, no = (put_at.get(Mo[k]) for k in ("materials", "association", "materials_len"))
            ctx.ob(rule, "number of materials", no in [e[4] for e in got["get_material_no"]], put[0][1].where(), "%s materials are kept" % (T.show(no)[:60] if no is not None else None))
            ctx.ob(rule, "materials", any(e[3][1] == mats for e in got["get_materials("]), put[0][1].where(), "the materials kept are not those of the mesh")
            ctx.ob(rule, "association", any(e[3][1] == asc for e in got["get_material_association"]), put[0][1].where(), "the materials of the faces kept are not those of the mesh")
            for what, t, cnt, size in (("materials", mats, "get_material_no", 8), ("association", asc, "get_face_no", 1)):
                al = [e for e in ev if e[4] == t]
                room = None
                if al and al[0][2].startswith("malloc"):
                    room = v.lin(al[0][3][0])[1]
                elif al and al[0][2].startswith("calloc"):
                    room = {x: (v.num(al[0][3][1 - k]) or 0) for k, x in enumerate(al[0][3][:2]) if v.num(x) is None}
                elif al and "operator new[]" in al[0][2]:
                    continue
                ok = room is not None and any(room.get(e[4], 0) >= size for e in got[cnt])
                ctx.ob(rule, "room for the " + what, ok, al[0][1].where() if al else put[0][1].where(), "the memory for the %s is %s" % (what, T.show(al[0][3][0])[:60] if al else None))
            fnd = [e for e in ev if re.search(r"unordered_map<.*>::(find|count)\(", e[2]) and self.is_ptr(v, e[3][0], "shapes")]
            ctx.ob("the first shape of a name is the one used", "parse_and_allocate_obj", bool(fnd) and not self.present(q, fnd) or any("::insert" in e[2] or "::emplace" in e[2] for e in put) and not fnd, put[0][1].where(), "a shape is kept although the name is taken")
            nm = [e for e in ev if any(x == g[4] or x in g[3] for g in got["get_mesh_name"] for x in e[3]) and "basic_string" in e[2]]
            texts = {x for e in nm for x in e[3]} | {x for g in got["get_mesh_name"] for x in g[3]}
            pr = [e for e in ev if re.search(r"pair<.*MeshObject>::pair|make_pair<", e[2]) or e in put]
            ctx.ob(rule, "name", any(set(e[3]) & texts for e in pr), put[0][1].where(), "the shape is not kept under its own name")
        ctx.need(n, "shapes of a shape file")

    # -- corrections
    def checks(self):
        ctx = self.ctx
        v, changed = self.session_paths
        T = v.T
        rule = "a setting is corrected only when the renderer cannot use it"
        off = {n: self.D[n][0] for n in ("width", "height", "spp", "sampler_type")}

        def leaf(t, name):
            """the terms of the setting as it was read"""
            return [x for x in self.leaves(T, t) if T.node[x][0] == "mem" and T.node[x][1] == ("arg", 0) and T.node[x][2] == off[name]]
        groups = {}
        for q, st, ins in changed:
            w, h, s = (v.load(st, ("arg", 0), off[n], (), 4) for n in ("width", "height", "spp"))
            fs = [(t, b) for t, b in st.facts.items()]
            ls = {n: {x for t in [w, h, s] + [t for t, b in fs] for x in leaf(t, n)} for n in off}
            groups[(w, h, s, tuple(fs))] = (ls, ins)
        ctx.count("corrections", len(groups))
        strat = self.words.get(("sampler_type", "stratified"))
        rand = self.words.get(("sampler_type", "random"))

        def outcomes(env0):
            for (w, h, s, fs), (ls, ins) in groups.items():
                env = {x: env0[n] for n in ls for x in ls[n]}
                if all((lambda x: x is None or bool(x) == bool(b))(evaluate(T, t, env)) for t, b in fs):
                    yield (evaluate(T, w, env), evaluate(T, h, env), evaluate(T, s, env)), ins
        bad = {}
        sizes = [(w, h) for w in list(range(1, 130)) + list(range(32, 4097, 32)) + [799, 1000, 1023, 1366, 1921, 3841] for h in (1, 31, 333, 600, 1080)]
        for w, h in sizes:
            n = 0
            for (a, b, s), ins in outcomes({"width": w, "height": h, "spp": 4, "sampler_type": rand}):
                n += 1
                if a is None or b is None:
                    bad.setdefault("resolution", ("%dx%d: not a number" % (w, h), ins))
                elif w % 32 == 0 and (a, b) != (w, h):
                    bad.setdefault("resolution", ("%dx%d becomes %gx%g" % (w, h, a, b), ins))
                elif w % 32 and not (a % 32 == 0 and w <= a < w + 32 and abs(b - h * a / w) <= 2):
                    bad.setdefault("resolution", ("%dx%d becomes %gx%g" % (w, h, a, b), ins))
            ctx.need(n, "path for a resolution of %dx%d" % (w, h))
        for k, name in ((strat, "stratified"), (rand, "random")):
            for spp in range(1, 2000):
                for (a, b, s), ins in outcomes({"width": 32, "height": 32, "spp": spp, "sampler_type": k}):
                    r = math.isqrt(spp)
                    if s is None or (s != spp if k == rand or r * r == spp else math.isqrt(int(s)) ** 2 != s or abs(math.sqrt(s) - math.sqrt(spp)) > .5 + 1e-6):
                        bad.setdefault("spp " + name, ("%d samples become %s" % (spp, s), ins))
        for k in ("resolution", "spp stratified", "spp random"):
            ctx.ob(rule, k, k not in bad, bad[k][1].where() if k in bad else v.f.name, bad.get(k, ("",))[0])

    def leaves(self, T, t):
        out, q, seen = [], [t], set()
        while q:
            x = q.pop()
            if x in seen:
                continue
            seen.add(x)
            n = T.node[x]
            if n[0] in ("mem", "arg", "byte"):
                out.append(x)
            elif n[0] == "call":
                q += list(n[2])
            elif n[0] not in ("c", "phi", "ptr"):
                q += [y for y in n[1:] if isinstance(y, int) and not isinstance(y, bool)]
        return out

    # -- textures
    def path_of(self, e):
        return e[1].where()

    def textures(self):
        ctx = self.ctx
        self.need("tex_name", "tex_scale", "tex_shift", "tex_filter", "tex_color")
        rule = "a texture is the named one of the library, else the file, else the default"
        v, S = self.paths("^ConfigDriver::load_texture\\(std", ["^(File|TextureImage|TextureLibrary|Console)::"], snaps=[("made", r"TextureImage::TextureImage\("), ("asked", r"TextureLibrary::(contains|get)_texture\(")])
        T = v.T
        path = T.mk("ptr", ("arg", 1), 0, ())
        n = {"library": 0, "file": 0, "default": 0}
        for q in S:
            if q.kind != "ret":
                continue
            ev = events(q)
            src = next((e for e in ev if e[4] == q.ret), None)
            new = next((e for e in ev if cls(e) == "TextureImage" and e[3][0] == q.ret), None)
            files = [e[3][0] for e in ev if e[2].startswith("File::filename(") or e[2].startswith("File::exists(") or e[2].startswith("File::absolute_path(")] + ([new[3][1]] if new else [])
            first = next((e for e in ev if e[2].startswith(("File::exists(", "File::filename(", "TextureLibrary::contains"))), ev[-1])
            okf = len(set(files)) <= 1 and all(self.resolved(q, v, x, path, first) for x in set(files))
            ctx.ob("a relative path starts at the directory of the input file", "textures", okf, q.where(), "the texture is looked for at %s" % [self.target(q, v, q.events, x) for x in set(files)])
            named = [e for e in ev if "::empty() const" in e[2] and self.is_ptr(v, e[3][0], "tex_name")]
            asks = [e for e in ev if e[2].startswith("TextureLibrary::contains_texture(")]
            given = [e for e in ev if "basic_string" in e[2] and "::operator=(" in e[2] and self.is_ptr(v, e[3][0], "tex_name")]
            fn = [e[4] for e in ev if e[2].startswith("File::filename(")]
            unnamed = any(self.fact(q, e[4]) for e in named)
            k = (q.events.index(asks[0]) if asks else len(q.events))
            early = [e for e in given if q.events.index(e) < k]
            okn = bool(asks) and all(self.is_ptr(v, e[3][1], "tex_name") for e in asks) and (len(early) == 1 and early[0][3][1] in fn if unnamed else not early and bool(named))
            ctx.ob("a texture without a name has the name of its file", "load_texture", okn, q.where(), "the name of the texture is %s" % [T.show(e[3][1])[:60] for e in early])
            has = [self.fact(q, e[4]) for e in asks]
            usable = {k: [self.fact(q, e[4]) for e in ev if e[2].startswith(k)] for k in ("File::exists(", "File::readable(", "File::is_folder(", "img_valid")}
            if src is not None and src[2].startswith("TextureLibrary::get_texture("):
                n["library"] += 1
                ctx.ob(rule, "library", has == [True] * len(has) and self.is_ptr(v, src[3][1], "tex_name"), q.where(), "the texture of the library is %s" % T.show(q.ret)[:80])
            elif new is not None:
                n["file"] += 1
                sn = next((e for e in q.events if e[0] == "snap" and e[1] == "made"), None)
                okm = False
                if sn:
                    a, st = sn[4], sn[3]
                    okm = len(a) == 5 and all(self.same_place(v, st, a[k], m, 2) for k, m in ((2, "tex_shift"), (3, "tex_scale"))) and a[4] == self.field(v, "tex_filter")
                inh = [e for e in ev if e[2].startswith("TextureLibrary::inherit_texture(") and len(e[3]) == 3 and self.is_ptr(v, e[3][1], "tex_name") and e[3][2] == q.ret]
                ctx.ob(rule, "file", has == [False] * len(has) and okm and len(inh) == 1, q.where(), "the image is made from %s and kept %d times" % ([T.show(x)[:30] for x in new[3][1:]], len(inh)))
                ctx.ob("only a readable image is loaded", "load_texture", True in usable["File::exists("] and True in usable["img_valid"] and (False in usable["File::is_folder("]), q.where(), "known about the file: %s" % usable)
            elif src is not None and src[2].startswith("TextureLibrary::get_dflt_teximage("):
                n["default"] += 1
                bad = False in usable["File::exists("] + usable["File::readable("] + usable["img_valid"] or True in usable["File::is_folder("]
                ctx.ob(rule, "default", has == [False] * len(has) and bad, q.where(), "the default texture is used although %s" % usable)
            else:
                ctx.ob(rule, "other", False, q.where(), "the texture is %s" % T.show(q.ret)[:80])
            cleared = any(e for e in ev if ("::clear()" in e[2] or "::operator=(" in e[2]) and "basic_string" in e[2] and self.is_ptr(v, e[3][0], "tex_name") and q.events.index(e) > k and
                          ("::clear()" in e[2] or (T.node[e[3][1]][0] == "ptr" and T.node[e[3][1]][1][0] == "g" and self.literal(T.node[e[3][1]][1][1]) == "")))
            vals = [[v.num(q.cell(("arg", 0), self.D[m][0] + 4 * j)) for j in range(2)] for m in ("tex_scale", "tex_shift")]
            ctx.ob("the settings of a texture do not reach the next one", "load_texture", cleared and vals == [[1, 1], [0, 0]], q.where(), "after the texture scale and shift are %s, name cleared: %s" % (vals, cleared))
        for k, c in n.items():
            ctx.need(c, "load_texture: " + k)
        # uniform textures
        v, S = self.paths("^ConfigDriver::load_texture_uniform\\(", ["^(Spectrum|ColorRGB|TextureUniform|TextureLibrary)::"], snaps=[("rgb", r"Spectrum::Spectrum\(ColorRGB"), ("tex", r"TextureUniform::TextureUniform\(")])
        T = v.T
        col = [T.mk("mem", ("arg", 0), self.D["tex_color"][0] + 4 * k, (), 4, 0) for k in range(3)]
        rule = "an array of three numbers is the colour it spells, as red, green and blue between 0 and 255"
        for q in S:
            ok, detail = self.colour(v, q, col, 0, events(q))
            sp = next((e for e in q.events if e[0] == "snap" and e[1] == "tex"), None)
            made = [e for e in events(q) if e[2].startswith("Spectrum::Spectrum(ColorRGB")]
            ok = ok and sp is not None and bool(made) and sp[4][1] == made[-1][3][0] and sp[4][0] == q.ret
            ctx.ob(rule, "uniform texture", ok, q.where(), detail)
            keep = [e for e in events(q) if e[2].startswith("TextureLibrary::inherit_texture(") and e[3][-1] == q.ret]
            ctx.ob(rule, "kept", len(keep) == 1, q.where(), "the uniform texture is kept %d times" % len(keep))

    def colour(self, v, q, col, light, ev):
        """the colour handed over on this path is the clamped one of the three leaves"""
        T = v.T
        rgb = [e for e in ev if e[2].startswith("ColorRGB::ColorRGB(unsigned char, unsigned char, unsigned char")]
        sp = [e for e in ev if e[2].startswith("Spectrum::Spectrum(ColorRGB")]
        if len(rgb) != 1 or len(sp) != 1:
            return False, "the colour is made %d times" % len(rgb)
        if (v.num(sp[0][3][-1]) or 0) not in ((1, -1) if light else (0,)):
            return False, "the colour is%s that of a light" % (" not" if light else "")
        import itertools
        pts = (-7, 0, 1.5, 128, 254.5, 255, 300)
        for k in range(3):
            for x in pts:
                for oth in (0, 255, 100, -5, 400):
                    env = {c: oth for c in col}
                    env[col[k]] = x
                    if not consistent(q, env):
                        continue
                    got = evaluate(T, rgb[0][3][1 + k], env)
                    want = int(min(max(x, 0), 255))
                    if got is None or int(got) != want:
                        return False, "component %d of the colour is %s for %g" % (k, got, x)
        return True, ""

    def same_place(self, v, st, t, name, n):
        """the address of the setting, or of a copy of it"""
        if self.is_ptr(v, t, name):
            return True
        r, off, vs = v.ptr(t)
        return all(v.load(st, r, off + 4 * k, vs, 4) == self.field(v, name, 4 * k, 4) for k in range(n))

    def fact(self, q, t):
        """truth of a term on the path, None if unknown"""
        v = q.vn
        b, pos = v.cond(t)
        if b in q.facts:
            return bool(q.facts[b]) == pos
        z = v.T.const(0)
        e = v.T.tab.get(("eq", z, t)) or v.T.tab.get(("eq", t, z))
        if e is not None and e in q.facts:
            return not q.facts[e]
        n = v.T.node[b]
        if n[0] == "eq" and z in n[1:]:
            x = n[2] if n[1] == z else n[1]
            for y in ("lt", "ult"):
                e = v.T.tab.get((y, z, x))
                if e is not None and e in q.facts:
                    return q.facts[e] is not pos
        return None

    # -- masks
    def masks(self):
        ctx = self.ctx
        rule = "a mask shows what its channel shows"
        Mk = {n: (o, s) for n, ty, o, s, l in self.prog.types["MaskBoolean"]["fields"]}
        Pm = {n: (o, s) for n, ty, o, s, l in self.prog.types["ParsedMask"]["fields"]}
        for n in ("map", "channel", "inverted"):
            ctx.need(n in Mk, "MaskBoolean::" + n)
        img = enum(self.prog, "ImageChannel")
        tx = {n: o for n, ty, o, s, l in self.prog.types["Texel"]["fields"]}
        for ch, comp in dict(ALPHA="a", RED="r", GREEN="g", BLUE="b").items():
            v, S = self.paths("^MaskBoolean::is_visible\\(", ["^TextureImage::"], seed=[(Mk["channel"][0], Mk["channel"][1], img[ch])])
            T = v.T
            mp, inv = T.mk("mem", ("arg", 0), Mk["map"][0], (), 8, 0), T.mk("mem", ("arg", 0), Mk["inverted"][0], (), 1, 0)
            for q in S:
                null = self.fact(q, mp) is False or consistent(q, {mp: 0}) and not consistent(q, {mp: 4096})
                if null:
                    ctx.ob(rule, "no mask", bool(evaluate(T, q.ret, {})), q.where(), "an object without mask is %s" % T.show(q.ret)[:60])
                    continue
                ctx.ob(rule, "the texture of the mask", any(e[2].startswith("TextureImage::map_value(") and e[3][-2] == mp for e in events(q)), q.where(), "the mask is not read from its texture")
                lv = [x for x in self.leaves(T, q.ret) + [y for t in q.facts for y in self.leaves(T, t)] if x not in (mp, inv) and (T.node[x][0] == "byte" or T.node[x][0] == "mem" and T.node[x][4] == 1)]
                offs = {T.node[x][2] for x in lv}
                ok = bool(lv) and offs == {tx[comp]}
                bad = None
                for x in range(256):
                    for i in (0, 1):
                        env = {**{l: x for l in lv}, inv: i, mp: 4096}
                        if not consistent(q, env):
                            continue
                        r = evaluate(T, q.ret, env)
                        if r is None or bool(r) != ((x >= 128) != bool(i)):
                            bad = (x, i, r)
                ctx.ob(rule, "channel " + ch, ok and bad is None, q.where(), "channel %s reads byte %s of the texel (%s is %s); %s" % (ch, sorted(offs), comp, tx[comp], "value %d, inverted %d: visible %s" % bad if bad else ""))
        v, S = self.paths("^MaskBoolean::is_masked\\(", ["^MaskBoolean::is_visible\\("])
        for q in S:
            e = events(q, r"MaskBoolean::is_visible")
            ok = len(e) == 1 and all(consistent(q, {e[0][4]: k}) is False or bool(evaluate(v.T, q.ret, {e[0][4]: k})) != bool(k) for k in (0, 1))
            ctx.ob(rule, "masked is not visible", ok, q.where(), v.T.show(q.ret)[:80])
        v, S = self.paths("^MaskBoolean::MaskBoolean\\(TextureImage", [])
        for q in S:
            got = [q.cell(("arg", 0), *Mk[n]) for n in ("map", "channel", "inverted")]
            ok = got[0] == v.T.mk("ptr", ("arg", 1), 0, ()) and got[1] == v.T.mk("in", 2) and got[2] == v.T.mk("in", 3)
            ctx.ob(rule, "the mask keeps what it is made of", ok, q.where(), "%s" % [v.T.show(x) for x in got])
        v, S = self.paths("^ConfigDriver::build_mask\\(", ["^MaskBoolean::", "^ConfigDriver::load_texture"])
        T = v.T
        pm = lambda n: T.mk("mem", ("arg", 1), Pm[n][0], (), Pm[n][1], 0)
        tex = T.mk("ptr", ("arg", 1), Pm["mask_tex"][0], ())
        for q in S:
            m = [e for e in events(q) if e[2].startswith("MaskBoolean::MaskBoolean(TextureImage")]
            ok = len(m) == 1
            if ok:
                a = m[0][3][1:]
                ld = [e for e in events(q, r"ConfigDriver::load_texture\(") if e[3][-1] == tex]
                empty = [self.fact(q, e[4]) for e in events(q) if "::empty() const" in e[2] and e[3][0] == tex]
                ok = a[1] == pm("mask_chn") and a[2] == pm("mask_inv") and (v.num(a[0]) == 0 and True in empty or bool(ld) and a[0] == ld[0][4] and True not in empty)
            ctx.ob("a mask is built from what its attributes say", "build_mask", ok, q.where(), "mask(%s)" % ", ".join(T.show(x)[:50] for x in (m[0][3][1:] if m else ())))

    # -- dual materials
    def looked_up(self, q, t, name):
        """the material of that name, the default one if there is none"""
        T = q.vn.T
        src = next((e for e in events(q) if e[4] == t), None)
        if src is None:
            return False
        has = [self.fact(q, e[4]) for e in events(q, r"MaterialLibrary::(contains|get)\(") if e[3][1] == name]
        if src[2].startswith("MaterialLibrary::get("):
            return src[3][1] == name and True in has
        return src[2].startswith("MaterialLibrary::get_default(") and False in has and True not in has

    def duals(self):
        ctx = self.ctx
        O = {n: o for n, ty, o, s, l in self.prog.types["ParsedDualMaterial"]["fields"]}
        v, S = self.paths("^ConfigDriver::build_dualmaterials\\(", ["^(MaterialLibrary|DualBsdf|MaskBoolean|Console)::", "^ConfigDriver::(build_mask|load_texture)"])
        T = v.T
        n = 0
        for q in S:
            for e in events(q, r"MaterialLibrary::add_inherit\("):
                n += 1
                r, off, vs = v.ptr(e[3][1])
                at = lambda m: T.mk("ptr", r, off - O["name"] + O[m], vs)
                x = Built(q).of(e[3][2])
                ok = x is not None and x[0] == "DualBsdf" and len(x[1]) == 3
                if ok:
                    mk = [y for y in events(q, r"ConfigDriver::build_mask\(") if at("mask") in y[3]]
                    ok = self.looked_up(q, x[1][0], self.norm(v, at("first"))) and self.looked_up(q, x[1][1], self.norm(v, at("second"))) and len(mk) == 1
                ctx.ob("a dual material is made of the two materials and the mask it names", "build_dualmaterials", ok, e[1].where(), "dual material(%s)" % ", ".join(T.show(y)[:70] for y in (x[1] if x else ())))
        ctx.need(n, "dual materials")
        self.covered(v, S, "deferred_dualmats")
        D = {m: (o, s) for m, ty, o, s, l in self.prog.types["DualBsdf"]["fields"]}
        v, S = self.paths("^DualBsdf::DualBsdf\\(Bsdf", ["^MaskBoolean::"])
        for q in S:
            ok = all(q.cell(("arg", 0), *D[m]) == v.T.mk("ptr", ("arg", k), 0, ()) for k, m in ((1, "first"), (2, "second")))
            ctx.ob("a dual material shows the first where the mask is visible, the second elsewhere", "constructor", ok, q.where(), "the materials are kept elsewhere")
        for m in ("value", "sample_value", "pdf", "gen_shading_matrix"):
            v, S = self.paths("^DualBsdf::%s\\(" % m, ["^MaskBoolean::"])
            T = v.T
            for q in S:
                vis = [self.fact(q, e[4]) for e in events(q, r"MaskBoolean::is_visible\(") if T.node[e[3][0]][2] == D["mask"][0]]
                masked = [self.fact(q, e[4]) for e in events(q, r"MaskBoolean::is_masked\(") if T.node[e[3][0]][2] == D["mask"][0]]
                vis += [None if x is None else not x for x in masked]
                use = [e for e in q.events if e[0] == "call" and "virt" in e[1].d]
                ok = len(use) == 1 and len(set(vis)) == 1 and vis[0] is not None
                if ok:
                    obj = [x for x in use[0][3] if x in (T.mk("mem", ("arg", 0), D["first"][0], (), 8, 0), T.mk("mem", ("arg", 0), D["second"][0], (), 8, 0))]
                    ok = len(obj) == 1 and T.node[obj[0]][2] == D["first" if vis[0] else "second"][0] and any(re.search("::%s\\(" % m, t[0]) for t in use[0][1].d["virt"]["targets"])
                ctx.ob("a dual material shows the first where the mask is visible, the second elsewhere", m, ok, q.where(), "visible: %s, then %s" % (vis, [[T.show(x)[:20] for x in e[3]] for e in use]))

    def norm(self, v, t):
        """an address the way loads of the first member spell it"""
        n = v.T.node[t]
        return n[1][1] if n[0] == "ptr" and n[1][0] == "val" and n[2] == 0 and not n[3] else t

    # -- materials
    def materials(self):
        ctx = self.ctx
        F = {n: (o, s, ty) for n, ty, o, s, l in self.prog.types["ParsedMaterial"]["fields"]}
        mt = {k: x for k, x in enum(self.prog, "mat_t").items()}
        dist = {self.words.get(("dist", w)): w for w in ("blinn", "beckmann", "ggx")}
        keep = ["^(MaterialLibrary|TextureLibrary|Console|TextureNormal|Bump|Lambertian|OrenNayar|SingleBRDF|MultiBSDF|Dielectric|Conductor|DielectricReflection|ConductorReflection|Refraction|MicrofacetR|MicrofacetT|GGXiso|GGXaniso|Blinn|Beckmann|Spectrum)::",
                "^ConfigDriver::load_texture"]
        v, S = self.paths("^ConfigDriver::build_materials\\(", keep, snaps=[("made", r"(Dielectric|Conductor|DielectricReflection|ConductorReflection|Refraction|MicrofacetT)::[A-Z]")])
        T = v.T
        rule = "a material is built of what its description says"
        L = lambda M, n: T.mk("mem", M, F[n][0], (), F[n][1], 0)
        import itertools
        grid = [(t, rx, ry, d) for t in sorted(mt.values()) for rx in (-.5, 0, .0004, .3, 1, 2) for ry in (-1, 0, .0004, .3, .7, 1, 2) for d in sorted(dist)]
        done, groups = 0, {}
        for q in S:
            adds = events(q, r"MaterialLibrary::add_inherit\(")
            if not adds:
                if q.dest is not None and q.kind == "cut" and events(q, r"MaterialLibrary::contains\(") and True not in [self.fact(q, e[4]) for e in events(q, r"MaterialLibrary::contains\(")]:
                    ctx.ob("every described material is added", "build_materials", False, q.where(), "a material whose name is free is not added")
                continue
            ctx.ob("every described material is added", "build_materials", len(adds) == 1, q.where(), "added %d times" % len(adds))
            r, off, vs = v.ptr(adds[0][3][1])
            if off != F["name"][0] or vs:
                ctx.ob("every described material is added", "name", False, adds[0][1].where(), "the material is added under another name")
                continue
            groups.setdefault(r, []).append((q, adds[0]))
        for M, qs in groups.items():
            leaf = {n: {x for q, e in qs for t in q.facts for x in self.leaves(T, t) if T.node[x][0] == "mem" and T.node[x][1] == M and T.node[x][2] == F[n][0]} | {L(M, n)} for n in ("type", "rough_x", "rough_y", "dist")}
            memo = {}
            for g in grid:
                env = {}
                for n, x in zip(("type", "rough_x", "rough_y", "dist"), g):
                    for l in leaf[n]:
                        env[l] = x
                memo[g] = (env, {})
            cache = {}
            for q, add in qs:
                fkey = tuple(q.facts.items())
                if fkey not in cache:
                    ok = []
                    for g in grid:
                        env, m = memo[g]
                        for t, b in fkey:
                            if t not in m:
                                m[t] = evaluate(T, t, env)
                            if m[t] is not None and bool(m[t]) != bool(b):
                                break
                        else:
                            ok.append(g)
                    cache[fkey] = ok
                for g in cache[fkey]:
                    done += 1
                    why = self.material(v, q, M, F, add, g, memo[g][0], mt, dist)
                    ctx.ob(rule, {k: n for n, k in mt.items()}[g[0]].lower(), why is None, add[1].where(), "%s, roughness %g, anisotropy %g, %s: %s" % ({k: n for n, k in mt.items()}[g[0]].lower(), g[1], g[2], dist[g[3]], why))
        self.covered(v, S, "deferred_materials")
        ctx.count("material descriptions", done)
        ctx.need(done >= len(grid), "material descriptions")

    def material(self, v, q, M, F, add, g, env, mt, dist):
        T = v.T
        b = q.__dict__.get("built") or Built(q)
        q.__dict__["built"] = b
        typ, rx, ry, d = g
        rx = min(max(rx, 0), 1)
        aniso = ry != -1 and ry != rx
        if aniso:
            ry = min(max(ry, .001), 1)
        rough = max(rx, .001) if aniso else .001 if typ == mt["GLOSSY"] and rx == 0 else rx
        spec = rx == 0 and not aniso

        def at(n):
            return T.mk("ptr", M, F[n][0], ())

        def texture(n):
            """the terms that are the texture of the description"""
            u = F[n + "_uniform"][0]
            un = [x for x in b.uni.setdefault(n, self.uniform(q, M, u))]
            has = [self.fact(q, x) for x in un]
            if True in has:
                return set(un), "the uniform colour"
            ld = {e[4] for e in events(q, r"ConfigDriver::load_texture\(") if e[3][-1] == at(n)}
            if ld:
                return ld, "the named texture"
            empty = [self.fact(q, e[4]) for e in events(q) if "::empty() const" in e[2] and e[3][0] == at(n)]
            return ({e[4] for e in events(q, r"TextureLibrary::get_dflt_tex") if True in empty} if False in has else set()), "the default texture"
        if not hasattr(b, "uni"):
            b.uni, b.snap = {}, {e[4][0]: e for e in q.events if e[0] == "snap"}

        def close(t, x):
            y = evaluate(T, t, env)
            return y is not None and abs(y - x) <= 1e-4 * max(1, abs(x))

        def ior(obj, k, what):
            """argument k of the constructor of obj is the index of refraction"""
            s = b.snap.get(obj)
            if s is None or len(s[4]) <= k:
                return False
            r, off, vs = v.ptr(s[4][k])
            if what == "ior":
                return r == M and off == F["ior"][0] and not vs or v.load(s[3], r, off, vs, 4) == T.mk("mem", M, F["ior"][0], (), 4, 0)
            t = v.load(s[3], r, off, vs, 4)
            if what[0] == "metal":
                n = T.node[t]
                met = {m: o for m, ty, o, sz, l in self.prog.types["Metal"]["fields"]}
                size = self.prog.types["Metal"]["size"]
                if n[0] != "mem":
                    return False
                o, vs2, root = n[2], n[3], n[1]
                return root[0] == "g" and "METALS" in root[1] and o == met[what[1]] and len(vs2) == 1 and vs2[0][0] == size and T.node[vs2[0][1]][0] == "mem" and T.node[vs2[0][1]][1] == M and T.node[vs2[0][1]][2] == F["elem"][0]
            inn = self.inner(T, t)
            e = [e for e in events(q, r"cauchy\(") if e[4] in inn]
            return len(e) == 1 and all(v.num(a) is not None and abs(v.num(a) - x) < 1e-6 for a, x in zip(e[0][3][-3:], (what[1], 0, 0)))

        def distribution(t):
            x = b.of(t)
            if x is None:
                return "no distribution"
            if aniso:
                want = ("GGXaniso", rough, ry)
            else:
                w = dist[d]
                want = ("Blinn", 2 / (rough * rough) - 2) if w == "blinn" else ("Beckmann" if w == "beckmann" else "GGXiso", rough)
            if x[0] != want[0] or len(x[1]) != len(want) - 1 or not all(close(a, y) for a, y in zip(x[1], want[1:])):
                return "distribution %s(%s) instead of %s%s" % (x[0], ", ".join(str(evaluate(T, a, env)) for a in x[1]), want[0], want[1:])
            return None
        # bump map
        bump = events(q, r"[A-Za-z]*::inherit_bump\(")
        if len(bump) != 1 or add[3][2] not in bump[0][3]:
            inh = self.bump_cell(v, q, add[3][2])
            bt = inh
        else:
            bt = next((a for a in bump[0][3] if a != add[3][2] and b.of(a)), None)
        x = b.of(bt) if bt is not None else None
        ld = [e for e in events(q, r"ConfigDriver::load_texture\(") if e[3][-1] == at("bump")]
        if x is None or not (x[0] == "TextureNormal" and ld and x[1][0] == ld[0][4] or x[0] == "Bump" and not ld and True in [self.fact(q, e[4]) for e in events(q) if "::empty() const" in e[2] and e[3][0] == at("bump")]):
            return "the bump map is %s" % (x and x[0])
        top = b.of(add[3][2])
        if top is None:
            return "no material is built"
        diff, wd = texture("diffuse")
        spc, ws = texture("specular")
        if typ == mt["MATTE"]:
            if top[0] != "SingleBRDF" or len(top[1]) < 2:
                return "it is a " + top[0]
            x = b.of(top[1][0])
            if x is None or (x[0] != "Lambertian" if rx == 0 else x[0] != "OrenNayar" or not close(x[1][0], 100 * (rough if aniso else rx))):
                if not (aniso and rx == 0 and x is not None and x[0] == "OrenNayar" and close(x[1][0], 100 * rough)):
                    return "its reflection is %s(%s)" % (x and x[0], [evaluate(T, a, env) for a in x[1]] if x else "")
            return None if top[1][1] in diff else "its texture is not " + wd
        if typ == mt["METAL"]:
            if top[0] != "SingleBRDF":
                return "it is a " + top[0]
            if len(top[1]) > 1 and v.num(top[1][1]) != 0:
                return "it has a texture"
            x = b.of(top[1][0])
            if x is None:
                return "no reflection"
            if spec:
                ok = x[0] == "ConductorReflection" and ior(top[1][0], 1, ("metal", "n")) and ior(top[1][0], 2, ("metal", "k"))
                return None if ok else "its reflection is %s with other numbers than those of the element" % x[0]
            if x[0] != "MicrofacetR":
                return "its reflection is " + x[0]
            y = b.of(x[1][1])
            if y is None or y[0] != "Conductor" or not ior(x[1][1], 1, ("metal", "n")) or not ior(x[1][1], 2, ("metal", "k")):
                return "its Fresnel term is %s with other numbers than those of the element" % (y and y[0])
            return distribution(x[1][0])
        if top[0] != "MultiBSDF":
            return "it is a " + top[0]
        parts = [(e[3][1], e[3][2]) for e in events(q, r"MultiBSDF::inherit_bdf\(") if e[3][0] == add[3][2]]
        if len(parts) != 2:
            return "it has %d parts" % len(parts)
        kinds = {}
        for o, t in parts:
            x = b.of(o)
            if x is None:
                return "a part is not built"
            kinds[x[0]] = (o, x, t)
        if typ == mt["GLOSSY"]:
            if set(kinds) != {"Lambertian", "MicrofacetR"}:
                return "its parts are %s" % sorted(kinds)
            if kinds["Lambertian"][2] not in diff:
                return "the texture of the diffuse part is not " + wd
            o, x, t = kinds["MicrofacetR"]
            if t not in spc:
                return "the texture of the specular part is not " + ws
            y = b.of(x[1][1])
            if y is None or y[0] != "Dielectric" or not ior(x[1][1], 1, ("cauchy", 1)):
                return "its Fresnel term is %s" % (y and y[0])
            return distribution(x[1][0])
        refl, refr = ("DielectricReflection", "Refraction") if spec else ("MicrofacetR", "MicrofacetT")
        if set(kinds) != {refl, refr}:
            return "its parts are %s" % sorted(kinds)
        if kinds[refr][2] not in diff:
            return "the texture of the transmitted part is not " + wd
        if kinds[refl][2] not in spc:
            return "the texture of the reflected part is not " + ws
        if spec:
            for o, x, t in kinds.values():
                if not ior(o, 1, ("cauchy", 1)) or not ior(o, 2, "ior"):
                    return "%s has other indices of refraction" % x[0]
            return None
        o, x, t = kinds[refr]
        if not ior(o, 2, ("cauchy", 1)) or not ior(o, 3, "ior"):
            return "MicrofacetT has other indices of refraction"
        y = b.of(kinds[refl][1][1][1])
        if y is None or y[0] != "Dielectric" or not ior(kinds[refl][1][1][1], 1, ("cauchy", 1)) or not ior(kinds[refl][1][1][1], 2, "ior"):
            return "its Fresnel term is %s" % (y and y[0])
        return distribution(kinds[refl][1][1][0]) or distribution(x[1][0])

    def uniform(self, q, M, off):
        T = q.vn.T
        return sorted({x for t in list(q.facts) + [a for e in events(q) for a in e[3]] for x in self.leaves(T, t) if T.node[x][0] == "mem" and T.node[x][1] == M and T.node[x][2] == off})

    def bump_cell(self, v, q, obj):
        """the bump map stored into the material"""
        for c in ("Bsdf",):
            for n, ty, o, s, l in self.prog.types.get(c, {}).get("fields", []):
                if n == "bump":
                    return q.cell(("val", obj), o, 8)
        return None

    # -- assets and lights
    def meshes(self):
        ctx = self.ctx
        W = {n: (o, s) for n, ty, o, s, l in self.prog.types["MeshWorld"]["fields"]}
        keep = ["^(Matrix4|AreaLight|Asset|Scene|MaterialLibrary|Console|MaskBoolean|Spectrum|ColorRGB|Shape|Mesh|MeshObject|Sphere)::", "^MeshWorld::", "^ConfigDriver::(build_mask|load_texture)"]
        v, S = self.paths("^ConfigDriver::build_meshes\\(", keep, snaps=[("mats", r"[A-Za-z]*::set_materials\("), ("mask", r"[A-Za-z]*::set_mask\("), ("copied", r"MeshWorld::MeshWorld\(MeshWorld"), ("light", r"AreaLight::AreaLight\(")])
        T = v.T
        rule = "an object of the scene is what its description says"
        n = {"asset": 0, "light": 0}
        for q in S:
            ev = events(q)
            inh = [e for e in ev if e[2].startswith(("Scene::inherit_asset(", "Scene::inherit_light("))]
            if not inh:
                continue
            cp = [e for e in ev if e[2].startswith("MeshWorld::MeshWorld(MeshWorld")]
            r, off, vs = v.ptr(cp[-1][3][0]) if cp else (None, 0, ())
            if r is None:
                nm = [e for e in ev if e[2].startswith("AreaLight::") or e[2].startswith("Asset::Asset")]
                raise AnalysisError("description of the object in ConfigDriver::build_meshes")
            at = lambda m: T.mk("ptr", r, off + W[m][0], vs)
            fld = lambda m, k=0: [x for t in list(q.facts) + [a for e in ev for a in e[3]] for x in self.leaves(T, t) if T.node[x][0] == "mem" and T.node[x][1] == r and T.node[x][2] == off + W[m][0] + k]
            islight = {x for m in ["is_light"] for x in fld(m)}
            lit = [self.fact(q, x) for x in islight]
            e = inh[0]
            x = Built(q).of(e[3][1])
            kind = "light" if "inherit_light" in e[2] else "asset"
            n[kind] += 1
            ok = len(inh) == 1 and x is not None and x[0] == ("AreaLight" if kind == "light" else "Asset") and lit == [kind == "light"]
            ctx.ob(rule, kind, ok, e[1].where(), "a description whose is_light is %s becomes %s" % (lit, x and x[0]))
            if not ok:
                continue
            # the shape
            named = [y for y in ev if re.search(r"operator(==|!=)|::compare\(", y[2]) and at("name") in y[3] and any(T.node[z][0] == "ptr" and T.node[z][1][0] == "g" and self.literal(T.node[z][1][1]) == "Sphere" for z in y[3])]
            sphere = None
            for y in named:
                f = self.fact(q, y[4])
                sphere = None if f is None else f if "operator==" in y[2] else not f
            found = [y for y in ev if re.search(r"unordered_map<.*::(find|at|operator\[\])\(", y[2]) and at("name") in y[3]]
            sh = x[1][0]
            dflt = self.D["default_sphere"][0]
            isdef = T.node[sh][0] == "mem" and T.node[sh][1] == ("arg", 0) and T.node[sh][2] == dflt
            ok = sphere is not None and (isdef if sphere else not isdef and bool(found) and self.from_map(q, sh, found) and self.present(q, found))
            ctx.ob(rule, kind + ": shape", ok, x[2][1].where(), "named Sphere: %s, shape %s" % (sphere, T.show(sh)[:80]))
            if kind == "light":
                temp = set(fld("temperature"))
                if len(x[1]) != 3:
                    ctx.ob(rule, "light: emission", False, x[2][1].where(), "made of %d things" % len(x[1]))
                    continue
                hot = [c for c in (0, 1, 5500) if consistent(q, {y: c for y in temp})]
                cold = consistent(q, {y: -1 for y in temp})
                made = [y for y in ev if y[2].startswith("Spectrum::Spectrum(") and y[3][0] == x[1][2]]
                if "int)" in x[2][2] or made and made[-1][2].startswith("Spectrum::Spectrum(int)"):
                    given = x[1][2] if "int)" in x[2][2] else made[-1][3][1]
                    ok = bool(hot) and not cold and given in temp
                    ctx.ob(rule, "light: temperature", ok, x[2][1].where(), "the temperature of the light is %s" % T.show(given)[:60])
                else:
                    col = [next(iter(fld("color", 4 * k)), T.mk("mem", r, off + W["color"][0] + 4 * k, vs, 4, 0)) for k in range(3)]
                    okc, detail = self.colour(v, q, col, True, ev)
                    sp = [y for y in ev if y[2].startswith("Spectrum::Spectrum(ColorRGB")]
                    okc = okc and bool(sp) and sp[-1][3][0] == x[1][2]
                    ctx.ob(rule, "light: colour", okc and cold and not hot, x[2][1].where(), detail or "the colour is used when the temperature is given")
            if not sphere and found:
                use = [y for y in ev if re.search(r"unordered_set<.*>::(insert|emplace)", y[2]) and self.is_ptr(v, y[3][0], "used_shapes") and at("name") in y[3]]
                ctx.ob("a shape stays as long as an object has it", kind, bool(use), x[2][1].where(), "the shape of the object is not noted as used")
            # the materials
            sm = [y for y in q.events if y[0] == "snap" and y[1] == "mats" and y[4][0] == e[3][1]]
            if len(sm) != 1:
                ctx.ob(rule, kind + ": materials", False, e[1].where(), "materials set %d times" % len(sm))
                continue
            st, a = sm[0][3], sm[0][4]
            empty = [self.fact(q, y[4]) for y in ev if "::empty() const" in y[2] and y[3][0] == at("material_name")]
            pr, po, pv = v.ptr(a[1])
            first = v.load(st, pr, po, pv, 8)
            if kind == "light":
                src = next((y for y in ev if y[4] == first), None)
                ok = src is not None and src[2].startswith("MaterialLibrary::get_default(") and v.num(a[2]) == 1 and self.zeroed(v, q, a[3])
            elif True in empty:
                if sphere:
                    src = next((y for y in ev if y[4] == first), None)
                    ok = src is not None and src[2].startswith("MaterialLibrary::get_default(") and v.num(a[2]) == 1
                else:
                    ok = all(self.from_map(q, y, found) for y in a[1:4])
                    M = {m: o for m, ty, o, s, l in self.prog.types["MeshObject"]["fields"]}
                    offs = [T.node[y][2] if T.node[y][0] == "mem" else T.node[self.deref(T, y)][2] for y in (sh, a[1], a[2], a[3])] if ok else []
                    ok = ok and [o - offs[0] for o in offs] == [M[m] - M["mesh"] for m in ("mesh", "materials", "materials_len", "association")]
            else:
                ok = False in empty and self.looked_up(q, first, at("material_name")) and v.num(a[2]) == 1 and self.zeroed(v, q, a[3])
            ctx.ob(rule, kind + ": materials", ok, sm[0][2].where(), "materials %s, %s of them (override: %s)" % (T.show(first)[:60], T.show(a[2])[:20], not (True in empty)))
            # the mask
            mk = [y for y in q.events if y[0] == "snap" and y[1] == "mask" and y[4][0] == e[3][1]]
            bm = [y for y in ev if y[2].startswith("ConfigDriver::build_mask(") and at("mask") in y[3]]
            ctx.ob(rule, kind + ": mask", len(mk) == 1 and len(bm) == 1, e[1].where(), "mask set %d times, built %d times from the description" % (len(mk), len(bm)))
        for k, c in n.items():
            ctx.need(c, "objects built: " + k)

    def deref(self, T, t):
        n = T.node[t]
        return n[1][1] if n[0] == "ptr" and n[1][0] == "val" else t

    def from_map(self, q, t, found):
        """the term is read from the element the map was asked for"""
        T = q.vn.T
        seen, w = set(), [t]
        while w:
            x = w.pop()
            if x in seen:
                continue
            seen.add(x)
            if any(x == y[4] for y in found):
                return True
            n = T.node[x]
            if n[0] in ("mem", "ptr") and n[1][0] == "val":
                w.append(n[1][1])
            elif n[0] in ("xv", "el"):
                w.append(n[1])
            elif n[0] == "call":
                w += list(n[2])
        return False

    def present(self, q, found):
        """the search is known to have found something"""
        for e in events(q):
            m = ITER.search(e[2])
            if m and m.group(1) in ("operator==", "operator!=") and any(self.from_map(q, a, found) for a in e[3]):
                f = self.fact(q, e[4])
                if f is not None:
                    return f is (m.group(1) == "operator!=")
        return any("::at(" in y[2] for y in found)

    def zeroed(self, v, q, t):
        """every face has the first material"""
        T = q.vn.T
        x = T.node[t]
        return any(e[0] == "fill" and e[2] == ("val", t) and e[3] is not None and v.num(e[3]) == 0 for e in q.events) or any(e[0] == "store" and e[3] is None and e[1].callee and "memset" in e[1].callee and e[2] == t and v.num(v.op(q.st, e[1].ops[1])) == 0 for e in q.events) or any(e[0] == "call" and e[4] == t and e[2].startswith("calloc") for e in q.events)
