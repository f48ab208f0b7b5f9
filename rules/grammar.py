"""What the generated parser does with a text: the tables of the scanner and of the parser are decoded,
and the action of every grammar rule is turned into the stores and calls it makes on the driver."""
import re
import front, ir, vn
from front import AnalysisError

GEN = "^(yy::ConfigParser::(parse|yytranslate_|make_)|yylex\\()"
OBJ = ("MeshWorld", "ParsedMask", "ParsedMaterial", "ParsedDualMaterial")
_cache = {}


def ints(g):
    wrap = 256 if re.search(r"unsigned char|YY_CHAR|uint8_t", g.get("dty", "")) else 0
    return [x[1] % wrap if wrap else x[1] for x in g["init"]]


def grammar(cfg=None):
    cfg = cfg or front.RGB
    if cfg.name not in _cache:
        _cache[cfg.name] = Grammar(cfg)
    return _cache[cfg.name]


class Grammar:
    def __init__(self, cfg):
        objs = "^(%s)::" % "|".join(OBJ)
        p = self.p = ir.Program(front.facts(cfg, [
            {"id": "parse", "fn": r"^yy::ConfigParser::parse\(", "keep": ["^std::", "^yy", "^ConfigDriver::(load_|error|unknown_char|scan_|parse|ConfigDriver|~)", objs, "^[a-z]+ std::", "^[A-Za-z0-9_:<> ,&*]+ yy::", "^cauchy", "^sellmeier"]},
            {"id": "lex", "fn": r"^yylex\(", "keep": ["^std::", "^yy", "^ConfigDriver::(load_|error|unknown_char|scan_|parse|ConfigDriver|~)", "^[a-z]+ std::"]},
            {"id": "make", "fn": r"^yy::ConfigParser::make_", "keep": ["^std::", "^yy", "^[A-Za-z0-9_:<> ,&*]+ yy::"]},
            {"id": "tr", "fn": r"^yy::ConfigParser::yytranslate_", "keep": []}], generated=GEN))
        self.types = p.types
        g = {x["name"]: x for x in p.globals.values() if x.get("init")}
        try:
            t = {k: ints(g["yy::ConfigParser::%s_" % k]) for k in ("yypact", "yydefact", "yypgoto", "yydefgoto", "yytable", "yycheck", "yyr1", "yyr2", "yystos")}
            t["ninf"] = g["yy::ConfigParser::yypact_ninf_"]["init"][1]
            t["tninf"] = g["yy::ConfigParser::yytable_ninf_"]["init"][1]
            tr = [x for x in g if x.startswith("yy::ConfigParser::yytranslate_")]
            t["translate"] = ints(g[tr[0]])
            self.lt = {k: ints(g["yy_" + k]) for k in ("ec", "accept", "base", "def", "nxt", "chk", "meta")}
        except (KeyError, IndexError) as e:
            raise AnalysisError("tables of the generated parser: %s" % e)
        self.t = t
        self.tokens()
        self.scanner()
        self.rules()

    # ---- scanner
    def tokens(self):
        """token number every make_X builds"""
        self.make = {}
        for f in self.p.by_id("make"):
            ks = {o[1] for i in f.calls() if "symbol" in (i.callee or "") for o in i.ops if o[0] == "c" and isinstance(o[1], int)}
            if len(ks) == 1:
                self.make[re.match(r"yy::ConfigParser::(make_[A-Za-z0-9_]+)", f.name).group(1)] = ks.pop()
        if len(self.make) < 20:
            raise AnalysisError("tokens of the generated parser")

    def scanner(self):
        f = self.p.by_id("lex")
        if len(f) != 1:
            raise AnalysisError("yylex")
        f = f[0]
        sw = max((i for i in f.all() if i.op == "switch"), key=lambda i: len(i.d.get("cases", [])), default=None)
        if sw is None:
            raise AnalysisError("actions of yylex")
        v = vn.VN(f)
        acts = {}
        base = v.fresh()
        v.havoc(base, next(b for _, b in sw.d["cases"] if f.pred[b] and b not in v.cuts))
        for c, b in sw.d["cases"]:
            o, q, out = base.copy(), [], []
            q.append((o, b, 0))
            while q:
                st, x, pos = q.pop()
                v.walk(st, x, pos, b, q, out)
            got = set()
            for p in out:
                mk = None
                for e in p.events:
                    if e[0] != "call":
                        continue
                    m = re.match(r"yy::ConfigParser::(make_[A-Za-z0-9_]+)", e[1].callee or "")
                    if m:
                        conv = [n for n in (x[1].callee or "" for x in p.events[:p.events.index(e)] if x[0] == "call") if n in ("atoi", "atof") or "basic_string(char const*" in n or "basic_string<" in n]
                        mk = (m.group(1), conv[-1] if conv else None)
                    elif (e[1].callee or "").startswith("ConfigDriver::unknown_char"):
                        mk = ("error", None)
                got.add(mk)
            acts[c] = got
        self.acts = acts

    def lex(self, text):
        """[(make_X, converter, lexeme)]"""
        t = self.lt
        n = len(t["accept"])
        jam = t["base"][n - 1]
        pos, out = 0, []
        data = text.encode()
        while pos < len(data):
            s, last, p = 1, None, pos
            while True:
                if t["accept"][s]:
                    last = (t["accept"][s], p)
                if t["base"][s] == jam or p >= len(data):
                    break
                c = t["ec"][data[p]]
                while t["chk"][t["base"][s] + c] != s:
                    s = t["def"][s]
                    if s >= n:
                        c = t["meta"][c]
                s = t["nxt"][t["base"][s] + c]
                p += 1
            if not last or last[1] == pos:
                return None
            act = self.acts.get(last[0])
            if act is None or len(act) != 1:
                return None
            a = next(iter(act))
            if a:
                if a[0] == "error":
                    return None
                out.append(a + (data[pos:last[1]].decode(),))
            pos = last[1]
        return out

    # ---- parser
    def rules(self):
        f = self.p.by_id("parse")
        if len(f) != 1:
            raise AnalysisError("ConfigParser::parse")
        f = self.f = f[0]
        sw = [i for i in f.all() if i.op == "switch" and len(i.d.get("cases", [])) > 40]
        if len(sw) != 1:
            raise AnalysisError("actions of ConfigParser::parse")
        sw = sw[0]
        v = self.v = Actions(f, self.types)
        count = {}
        for c, b in sw.d["cases"]:
            for s in f.succ[b]:
                count[s] = count.get(s, 0) + 1
        count[sw.d["default"]] = count.get(sw.d["default"], 0) + 1
        v.cuts.add(max(count, key=lambda k: (count[k], k)))
        base = v.fresh()
        v.havoc(base, next(b for _, b in sw.d["cases"] if f.pred[b] and b not in v.cuts))
        self.fx = {}
        for c, b in sw.d["cases"]:
            o, q, out = base.copy(), [], []
            if b in v.cuts:
                self.fx[c] = []
                continue
            q.append((o, b, 0))
            while q:
                st, x, pos = q.pop()
                v.walk(st, x, pos, b, q, out)
                if len(out) > 20:
                    raise AnalysisError("action of grammar rule %d" % c)
            self.fx[c] = v.effects_of(out[0]) if len(out) == 1 else None
        self.line = {c: f.bbs[b][0] for c, b in sw.d["cases"]}

    def parse(self, toks):
        """reductions [(rule, semantic values of the right-hand side)] or None when the text is not accepted"""
        t = self.t
        syms = []
        for name, conv, text in toks:
            k = self.make.get(name)
            if k is None:
                return None
            syms.append((t["translate"][k], ("tok", conv, text)))
        syms.append((t["translate"][0], None))
        st, vals, out, i = [0], [None], [], 0
        for _ in range(10000):
            s = st[-1]
            if t["yystos"][s] == t["translate"][0] and len(st) > 1:
                return out
            a = 0
            n = t["yypact"][s]
            if n != t["ninf"]:
                n += syms[i][0]
                if 0 <= n < len(t["yytable"]) and t["yycheck"][n] == syms[i][0]:
                    a = t["yytable"][n]
                    if a == t["tninf"]:
                        return None
                    if a > 0:
                        st.append(a)
                        vals.append(syms[i][1])
                        i += 1
                        if i >= len(syms):
                            return out
                        continue
                    a = -a
                else:
                    a = t["yydefact"][s]
            else:
                a = t["yydefact"][s]
            if a == 0:
                return None
            k = t["yyr2"][a]
            rhs = vals[len(vals) - k:] if k else []
            if k:
                del st[-k:], vals[-k:]
            val = {}
            out.append((a, rhs, val))
            if a in self.fx and self.fx[a] is None:
                raise AnalysisError("action of grammar rule %d" % a)
            for e in self.fx.get(a, ()):
                if e[0] == "lhs":
                    val[e[1]] = subst(e[2], rhs)
            nt = t["yyr1"][a]
            nts = nt - self.ntokens
            y = t["yypgoto"][nts] + st[-1]
            g = t["yytable"][y] if 0 <= y < len(t["yytable"]) and t["yycheck"][y] == st[-1] else t["yydefgoto"][nts]
            st.append(g)
            vals.append(val)
        return None

    @property
    def ntokens(self):
        # the first nonterminal is the left-hand side of rule 1 ($accept, the augmented start symbol comes first)
        return min(x for x in self.t["yyr1"] if x)

    def run(self, text):
        """(state {(field, offset): value}, log [(what, target, value)]) after the text, or None when rejected"""
        toks = self.lex(text)
        if toks is None:
            return None
        red = self.parse(toks)
        if red is None:
            return None
        state, log = {}, []

        def snap(v):
            if isinstance(v, tuple) and v and v[0] == "field":
                pre = v[1] + "."
                return {k[0][len(pre):] if k[0].startswith(pre) else "": 0 for k in ()} or dict(((k[0][len(pre):], k[1]), x) for k, x in state.items() if k[0].startswith(pre))
            return v
        for a, rhs, _ in red:
            for e in self.fx.get(a, ()):
                if e[0] == "set":
                    val = subst(e[2], rhs)
                    name = e[1][0]
                    if isinstance(val, tuple) and val and val[0] == "new":
                        for k in [k for k in state if k[0].startswith(name + ".")]:
                            del state[k]
                    elif isinstance(val, tuple) and val and val[0] == "field":
                        new = snap(val)
                        for k in [k for k in state if k[0].startswith(name + ".")]:
                            del state[k]
                        for (m, o), x in new.items():
                            state[(name + "." + m, o)] = x
                    else:
                        state[e[1]] = val
                elif e[0] == "push":
                    log.append(("push", e[1], snap(subst(e[2], rhs))))
                elif e[0] == "call":
                    log.append(("call", e[1], tuple(state.get((x[1], 0)) if isinstance(x, tuple) and x[0] == "field" else x for x in subst(e[2], rhs)[1:]), dict(state)))
        return state, log


def subst(d, rhs):
    """a description over the stack of the parser with the values of the right-hand side put in"""
    if not isinstance(d, tuple):
        return d
    if d and d[0] == "slot":
        k = len(rhs) - 1 - d[1]
        if k < 0:
            return ("outside", d[1])
        v = rhs[k]
        if isinstance(v, dict):
            return v.get(d[3], ("missing", d[3]))
        if v is None:
            return ("none",)
        return ("text", v[2]) if v[1] is None or "string" in v[1] else ("num", float(v[2]) if v[1] == "atof" else int(float(v[2])))
    r = tuple(subst(x, rhs) for x in d)
    if r[0] == "substr" and r[1][0] == "text":
        s = r[1][1]
        n = r[3]
        if isinstance(n, tuple) and n[0] == "len":
            n = len(s) + n[2] if n[1] == r[1] else None
        return ("text", s[r[2]:r[2] + n]) if n is not None else r
    if r[0] == "cast":
        x = r[2]
        if isinstance(x, tuple) and x[0] == "num":
            return ("num", float(x[1])) if "tofp" in r[1].lower() or "fp" in r[1] else x
        return x
    return r


class Actions(vn.VN):
    """value numbering of the actions, with the stack of the parser and the driver as named places"""

    def __init__(self, f, types):
        super().__init__(f)
        self.types = types
        self.drv = [x for x in types["yy::ConfigParser"]["fields"] if x[0] == "driver"][0][2] if "yy::ConfigParser" in types else None

    def driver(self, root):
        """the root is the driver the parser works for"""
        if root[0] != "val":
            return False
        n = self.T.node[root[1]]
        return n[0] == "mem" and n[1] == ("arg", 0) and (self.drv is None or n[2] == self.drv) and not n[3]

    def name(self, off, cls="ConfigDriver", pre=""):
        for n, ty, o, size, line in self.types[cls]["fields"]:
            if o <= off < o + size:
                if ty in OBJ and ty in self.types:
                    if off == o:
                        # the first member shares the address of the object
                        return self.name(off - o, ty, pre + n + ".")
                    return self.name(off - o, ty, pre + n + ".")
                return (pre + n, off - o)
        return (pre + "?", off)

    def objname(self, off, cls, want, pre=""):
        """the member object of class `want` at the offset"""
        for n, ty, o, size, line in self.types[cls]["fields"]:
            if ty == want and o == off:
                return pre + n
            if ty in OBJ and o <= off < o + size:
                return self.objname(off - o, ty, want, pre + n + ".")
        return None

    def call(self, st, i):
        T = self.T
        c = i.callee or ""
        if "virt" in i.d or not c:
            return super().call(st, i)
        args = None

        def arg(k):
            return self.op(st, i.ops[k])
        if c.startswith("yy::stack<") and "::operator[](" in c:
            k = self.num(arg(1))
            if k is not None:
                return T.mk("slot", int(k))
        m = re.match(r"(.*)& yy::variant<.*>::as<.*>\(\)", c)
        if m:
            root, off, vs = self.ptr(arg(0))
            if root[0] == "val" and T.node[root[1]][0] == "slot":
                return T.mk("attr", T.node[root[1]][1], m.group(1))
            if root[0] == "alloca":
                return T.mk("attr", "lhs", m.group(1))
        if re.match(r"std::.*basic_string<.*>::size\(\) const|std::.*basic_string<.*>::length\(\) const", c):
            return T.mk("len", self.what(st, arg(0)))
        if re.match(r"std::.*basic_string<.*>::substr\(", c):
            r, off, vs = self.ptr(arg(0))
            self.store(st, r, off, vs, 8, T.mk("substr", self.what(st, arg(1)), arg(2), arg(3)))
            return None
        m = re.match(r"(.*)::operator=\(", c)
        if m:
            cls = "std::string" if "basic_string" in c else m.group(1)
            src = self.what(st, arg(1), cls)
            r, off, vs = self.ptr(arg(0))
            if self.driver(r):
                st.events.append(("fx", "set", (self.objname(off, "ConfigDriver", cls), 0) if cls in OBJ else self.name(off), src))
            else:
                self.store(st, r, off, vs, 8, src)
            return arg(0) if i.ty == "ptr" else None
        m = re.match(r"std::vector<(.*?),? .*>::(push_back|emplace_back)", c) or re.match(r"std::vector<(.*?),.*>::(push_back|emplace_back)", c)
        if m and "push_back" in c:
            r, off, vs = self.ptr(arg(0))
            if self.driver(r):
                cls = re.search(r"push_back\((.*?)(?: const)?&+\)", c)
                cls = cls.group(1) if cls else ""
                st.events.append(("fx", "push", self.name(off)[0], self.what(st, arg(1), "std::string" if "basic_string" in cls else cls)))
                return None
        m = re.match(r"(%s)::\1\(\)" % "|".join(OBJ), c)
        if m:
            r, off, vs = self.ptr(arg(0))
            self.clobber(st, r)
            self.store(st, r, off, vs, 8, T.mk("new", m.group(1)))
            return None
        if "::~" in c:
            return None
        if c.startswith("ConfigDriver::"):
            r, off, vs = self.ptr(arg(0))
            n = re.match(r"ConfigDriver::([A-Za-z0-9_]+)", c).group(1)
            st.seq += 1
            t = T.mk("result", n, st.seq)
            st.events.append(("fx", "call", n, T.mk("args", *[self.what(st, arg(k), "std::string") for k in range(1, len(i.ops)) if i.ops[k][0] != "fn"])))
            return t if i.ty != "void" else None
        m = re.match(r"(cauchy|sellmeier)\(", c)
        if m:
            a = [arg(x) for x in range(len(i.ops)) if i.ops[x][0] != "fn"]
            if i.ty != "void":
                return T.mk(m.group(1), 0, *a)
            r, off, vs = self.ptr(a[0])
            n = self.types["Spectrum"]["size"]
            for k in range(0, n, 4):
                self.store(st, r, off + k, vs, 4, T.mk(m.group(1), k, *a[1:]))
            return None
        if c.startswith("llvm.memcpy") or c.startswith("llvm.memmove"):
            r, off, vs = self.ptr(arg(0))
            n = self.num(arg(2))
            if self.driver(r) and n and n <= 256:
                sr, so, sv = self.ptr(arg(1))
                for k in range(0, int(n), 4):
                    st.events.append(("fx", "set", self.name(off + k), self.load(st, sr, so + k, sv, 4)))
        return super().call(st, i)

    def what(self, st, a, cls=None):
        """the string or object an address stands for"""
        r, off, vs = self.ptr(a)
        if r[0] == "alloca":
            return self.load(st, r, off, vs, 8)
        if r[0] == "val" and self.T.node[r[1]][0] == "attr":
            return r[1] if not off else a
        if self.driver(r):
            n = self.objname(off, "ConfigDriver", cls) if cls in OBJ else self.name(off)[0]
            return self.T.mk("field", n)
        return a

    def effects_of(self, p):
        out = []
        for e in p.events:
            if e[0] == "fx":
                if e[1] == "set":
                    out.append(("set", e[2], self.desc(e[3])))
                elif e[1] == "push":
                    out.append(("push", e[2], self.desc(e[3])))
                else:
                    out.append(("call", e[2], ("args",) + tuple(self.desc(x) for x in self.T.node[e[3]][1:])))
            elif e[0] == "store" and e[3] is not None:
                r, off, vs = self.ptr(e[2])
                n = self.T.node[e[3]]
                for k, x in enumerate(n[1:] if n[0] == "vec" else [e[3]]):
                    if self.driver(r):
                        out.append(("set", self.name(off + 4 * k), self.desc(x)))
                    elif r[0] == "val" and self.T.node[r[1]][:2] == ("attr", "lhs"):
                        out.append(("lhs", off + 4 * k, self.desc(x)))
        # what a structure copy left in the value of the rule
        for r, m in p.st.mem.items():
            if r[0] == "val" and self.T.node[r[1]][:2] == ("attr", "lhs"):
                for (off, vs), c in sorted(m.items()):
                    if c[0] == 4 and not any(x[0] == "lhs" and x[1] == off for x in out):
                        out.append(("lhs", off, self.desc(c[1])))
        return out

    def desc(self, t):
        T = self.T
        n = T.node[t]
        k = self.num(t)
        if k is not None:
            return ("num", k)
        if n[0] == "mem" and n[1][0] == "val" and T.node[n[1][1]][0] == "attr":
            a = T.node[n[1][1]]
            return ("slot", a[1], a[2], n[2])
        if n[0] == "attr":
            return ("slot", n[1], n[2], 0)
        if n[0] == "len":
            return ("len", self.desc(n[1]), 0)
        if n[0] == "substr":
            k, rest = self.lin(n[3])
            ln = [x for x in rest if T.node[x][0] == "len"]
            if len(rest) == 1 and ln and rest[ln[0]] == 1:
                c = ("len", self.desc(T.node[ln[0]][1]), int(k))
            else:
                c = None if rest else int(k)
            a = self.num(n[2])
            return ("substr", self.desc(n[1]), None if a is None else int(a), c)
        # the components of a spectrum returned in registers
        if n[0] == "el" and T.node[n[1]][0] == "xv" and self.num(n[2]) is not None:
            x = T.node[n[1]]
            if T.node[x[1]][0] in ("cauchy", "sellmeier"):
                y = T.node[x[1]]
                return (y[0], 8 * x[2][0] + 4 * int(self.num(n[2]))) + tuple(self.desc(z) for z in y[2:])
        if n[0] == "xv" and T.node[n[1]][0] in ("cauchy", "sellmeier"):
            y = T.node[n[1]]
            return (y[0], 8 * n[2][0]) + tuple(self.desc(z) for z in y[2:])
        if n[0] in ("new", "field", "result"):
            return (n[0], n[1])
        if n[0] in ("cauchy", "sellmeier"):
            return (n[0], n[1]) + tuple(self.desc(x) for x in n[2:])
        if n[0] in ("sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "sext", "zext", "trunc"):
            return ("cast", n[0], self.desc(n[1]))
        if n[0] == "cast":
            return ("cast", str(n[1]), self.desc(n[-1]))
        return ("term", T.show(t)[:80])
