"""SSA program model used by the rules: CFG, dominators, canonical expressions,
access paths, branch facts and a path-sensitive (ESP-style) dataflow engine."""
import re
from collections import defaultdict, deque


class Ins:
    __slots__ = ("i", "op", "ty", "d", "bb", "fn", "pos")

    def __init__(self, d, bb, fn, pos):
        self.i, self.op, self.ty, self.d, self.bb, self.fn, self.pos = d["i"], d["op"], d["ty"], d, bb, fn, pos

    @property
    def ops(self):
        return self.d.get("ops", [])

    @property
    def callee(self):
        return self.d.get("callee")

    @property
    def scoped(self):
        return self.d.get("scoped") or self.d.get("callee") or ""

    def loc(self):
        l = self.d.get("loc")
        if not l:
            return "%s:%s" % (short(self.fn.file), self.fn.line)
        return "%s:%d" % (short(l[0]), l[1])

    def line(self):
        l = self.d.get("loc")
        return l[1] if l else self.fn.line

    def where(self):
        l = self.d.get("loc")
        if l and len(l) > 3:
            return "%s, function %s called from %s" % (self.loc(), l[2], " <- ".join(l[3:]))
        return "%s, function %s" % (self.loc(), self.fn.scoped)

    def chain(self):
        """function the instruction was written in, then its inlining callers (names only)"""
        l = self.d.get("loc")
        if l and len(l) > 3:
            return [l[2]] + [x.rsplit(":", 1)[0] for x in l[3:]]
        return [self.fn.scoped]

    def __repr__(self):
        return "<%d %s %s>" % (self.i, self.op, self.callee or "")


def short(p):
    i = (p or "").find("/src/")
    return p[i + 1:] if i >= 0 else p


class Func:
    def __init__(self, d):
        self.d = d
        self.id, self.name, self.link = d["id"], d["name"], d["link"].replace(".irclone", "")
        if self.name.endswith(")") is False and ".irclone" in self.name:
            self.name = self.name.split(".irclone")[0].strip()
        self.scoped = d.get("scoped") or self.name
        self.file, self.line = d.get("file", ""), d.get("line", 0)
        self.args = d["args"]
        self.bbs, self.ins = [], {}
        self.succ, self.pred = {}, defaultdict(list)
        for b in d["blocks"]:
            lst = []
            for k, x in enumerate(b["ins"]):
                it = Ins(x, b["n"], self, k)
                lst.append(it)
                self.ins[it.i] = it
            self.bbs.append(lst)
            self.succ[b["n"]] = list(b["succ"])
            for s in b["succ"]:
                self.pred[s].append(b["n"])
        self._dom = self._pdom = None
        self._users = None
        self._ex = {}

    # ---- instruction access
    def all(self):
        for b in self.bbs:
            for i in b:
                yield i

    def calls(self):
        for i in self.all():
            if i.op in ("call", "invoke"):
                yield i

    def term(self, b):
        return self.bbs[b][-1] if self.bbs[b] else None

    def rets(self):
        return [i for i in self.all() if i.op == "ret"]

    @property
    def users(self):
        if self._users is None:
            u = defaultdict(list)
            for i in self.all():
                for o in operands(i):
                    if o[0] == "v":
                        u[o[1]].append(i)
            self._users = u
        return self._users

    # ---- dominators
    def dom(self):
        if self._dom is None:
            self._dom = _dominators(0, len(self.bbs), self.succ, self.pred)
        return self._dom

    def pdom(self):
        """post-dominators with a virtual exit (-1); unreachable/noreturn ends also go to exit"""
        if self._pdom is None:
            n = len(self.bbs)
            succ, pred = defaultdict(list), defaultdict(list)
            for b in range(n):
                ss = self.succ[b] or [-1]
                for s in ss:
                    pred[b].append(s)   # reversed graph
                    succ[s].append(b)
            self._pdom = _dominators(-1, n, succ, pred)
        return self._pdom

    def dominates(self, a, b):
        """instruction a dominates instruction b"""
        if a.bb == b.bb:
            return a.pos <= b.pos
        return a.bb in self.dom().get(b.bb, ())

    def reach(self, b, skip=()):
        seen, q = set(), [b]
        while q:
            x = q.pop()
            for s in self.succ[x]:
                if s not in seen and s not in skip:
                    seen.add(s)
                    q.append(s)
        return seen

    def reachable_from(self, a, b):
        """may instruction b execute after instruction a"""
        if a.bb == b.bb and b.pos > a.pos:
            return True
        return b.bb in self.reach(a.bb)

    def in_loop(self, b):
        return b in self.reach(b)

    # ---- canonical expressions
    def ex(self, o, depth=0):
        """canonical tuple for an operand (casts dropped, commutative sorted)"""
        if o[0] != "v":
            return norm_const(o)
        if o[1] in self._ex:
            return self._ex[o[1]]
        if depth > 60:
            return ("v", o[1])
        r = self._expr(self.ins[o[1]], depth + 1)
        self._ex[o[1]] = r
        return r

    def _expr(self, i, d):
        op = i.op
        if op in CASTS:
            return self.ex(i.ops[0], d)
        if op == "freeze":
            return self.ex(i.ops[0], d)
        if op == "load":
            return ("load", self.addr(i, d))
        if op == "getelementptr":
            return self._gep(self.ex(i.ops[0], d), i.d["path"], d)
        if op in COMM:
            a, b = self.ex(i.ops[0], d), self.ex(i.ops[1], d)
            return (op,) + tuple(sorted((a, b), key=repr))
        if op in BIN:
            return (op, self.ex(i.ops[0], d), self.ex(i.ops[1], d))
        if op in ("icmp", "fcmp"):
            return (op, i.d["pred"], self.ex(i.ops[0], d), self.ex(i.ops[1], d))
        if op == "fneg":
            return ("fneg", self.ex(i.ops[0], d))
        if op == "select":
            return ("select",) + tuple(self.ex(x, d) for x in i.ops)
        if op in ("call", "invoke"):
            return ("call", i.callee or "?", tuple(self.ex(x, d) for x in i.ops), i.i)
        if op == "alloca":
            return ("alloca", i.d.get("dvar") or i.d.get("var") or "", i.i)
        if op == "phi":
            return ("phi", i.i)
        if op == "extractelement":
            r = self.element(i)
            return r if r is not None else (op, self.ex(i.ops[0], d), self.ex(i.ops[1], d))
        if op == "extractvalue":
            return ("xv", self.ex(i.ops[0], d), tuple(i.d.get("idx", ())))
        return (op, i.i)

    def element(self, i):
        """value behind extractelement(insertelement chain), or None"""
        o = self.element_op(i)
        return self.ex(o) if o is not None else None

    def element_op(self, i):
        if i.ops[1][0] != "c":
            return None
        k, v = i.ops[1][1], i.ops[0]
        for _ in range(16):
            if v[0] != "v":
                return None
            x = self.ins[v[1]]
            if x.op != "insertelement":
                return None
            if x.ops[2][0] != "c":
                return None
            if x.ops[2][1] == k:
                return x.ops[1]
            v = x.ops[0]
        return None

    def addr(self, i, d=0):
        """canonical address of a load/store, with the member name restored when
        a zero-offset step was folded away"""
        o = i.ops[0] if i.op == "load" else i.ops[1]
        a = self.ex(o, d)
        fld = i.d.get("fld")
        if fld:
            cls, name = fld.rsplit("::", 1)
            if not (a[0] == "fld" and a[3] == name):
                x = a
                while isinstance(x, tuple) and x and x[0] == "idx":
                    x = x[1]
                if not (isinstance(x, tuple) and x and x[0] == "fld" and x[3] == name):
                    a = ("fld", a, cls, name)
        return a

    def _gep(self, base, path, d):
        r = base
        for p in path:
            if p[0] == "f":
                r = ("fld", r, p[1], p[2])
            elif p[0] == "b":
                # base-class / unnamed sub-object at index 0: keep the address identity
                r = r if p[2] == 0 else ("fld", r, p[1], "#%d" % p[2])
            elif p[0] == "i":
                r = ("idx", r, ("c", p[1]))
            elif p[0] == "+":
                r = ("idx", r, ("c", p[1]))
            elif p[0] == "*":
                r = ("idx", r, self.ex(p[1], d))
        return r

    # ---- access roots
    def root(self, o):
        """walk a pointer to its root operand; returns (root operand, [field names], through_load)"""
        path, loads = [], 0
        seen = 0
        while o[0] == "v" and seen < 200:
            seen += 1
            i = self.ins[o[1]]
            if i.op == "getelementptr":
                for p in reversed(i.d["path"]):
                    if p[0] == "f":
                        path.append((p[1], p[2]))
                    elif p[0] in ("*", "i", "+"):
                        path.append(("", "[]"))
                o = i.ops[0]
            elif i.op in CASTS or i.op == "freeze":
                o = i.ops[0]
            elif i.op == "load":
                path.append(("", "->"))
                loads += 1
                o = i.ops[0]
            else:
                break
        if o[0] == "cegep":
            for p in reversed(o[2]["path"]):
                if p[0] == "f":
                    path.append((p[1], p[2]))
            o = o[1]
        return o, list(reversed(path)), loads


def _dominators(entry, n, succ, pred):
    order, seen = [], {entry}
    st = [(entry, iter(succ[entry]))]
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    idx = {b: k for k, b in enumerate(order)}
    idom = {entry: entry}

    def inter(a, b):
        while a != b:
            while idx[a] > idx[b]:
                a = idom[a]
            while idx[b] > idx[a]:
                b = idom[b]
        return a
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in pred[b]:
                if p in idom:
                    new = p if new is None else inter(p, new)
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True
    dom = {}
    for b in order:
        s, x = {b}, b
        while x != entry:
            x = idom[x]
            s.add(x)
        dom[b] = s
    return dom


CASTS = {"bitcast", "zext", "sext", "trunc", "inttoptr", "ptrtoint", "addrspacecast",
         "sitofp", "uitofp", "fpext", "fptrunc", "fptosi", "fptoui"}
COMM = {"add", "mul", "fadd", "fmul", "and", "or", "xor"}
BIN = {"sub", "fsub", "udiv", "sdiv", "fdiv", "urem", "srem", "frem", "shl", "lshr", "ashr"}


def norm_const(o):
    if o[0] == "c":
        return ("c", o[1])
    if o[0] == "d":
        try:
            if float(o[1]) == int(float(o[1])):
                return ("c", int(float(o[1])))
        except (ValueError, OverflowError):
            pass
        return ("d", o[1])
    if o[0] == "a":
        return ("arg", o[1])
    if o[0] in ("g", "fn"):
        return ("g", o[1])
    if o[0] == "null":
        return ("c", 0)
    if o[0] == "cegep":
        r = norm_const(o[1])
        for p in o[2]["path"]:
            if p[0] == "f":
                r = ("fld", r, p[1], p[2])
            elif p[0] in ("i", "+") and p[1] != 0:
                r = ("idx", r, ("c", p[1]))
        return r
    return tuple(str(x) for x in o)


def operands(i):
    out = list(i.ops)
    if i.op == "phi":
        out += [x[1] for x in i.d["in"]]
    if "fp" in i.d:
        out += i.d["fp"]
    for p in i.d.get("path", ()):
        if p[0] == "*":
            out.append(p[1])
    return out


def contains(e, pred):
    if pred(e):
        return True
    if isinstance(e, tuple):
        return any(contains(x, pred) for x in e if isinstance(x, tuple))
    return False


def fields_in(e):
    out = set()

    def w(x):
        if isinstance(x, tuple):
            if x and x[0] == "fld":
                out.add((x[2], x[3]))
            for y in x:
                w(y)
    w(e)
    return out


class Program:
    def __init__(self, facts):
        self.facts = facts
        self.types = facts["types"]
        self.enums = facts.get("enums", {})
        self.globals = {g["link"]: g for g in facts["globals"]}
        self.gname = {g["name"]: g for g in facts["globals"]}
        self.funcs = [Func(f) for f in facts["functions"]]
        self.all = {f.link: f for f in self.funcs if f.id == ""}

    def by_id(self, id_):
        return [f for f in self.funcs if f.id == id_]

    def find(self, rx):
        r = re.compile(rx)
        return [f for f in self.funcs if f.id == "" and r.search(f.name)]

    def gstr(self, o):
        """string constant behind an operand"""
        if o and o[0] == "cegep":
            o = o[1]
        if o and o[0] == "g":
            g = self.globals.get(o[2])
            if g and "str" in g:
                return g["str"]
        return None

    def bases(self, t):
        out, q = set(), [t]
        while q:
            x = q.pop()
            for b in self.types.get(x, {}).get("bases", ()):
                if b not in out:
                    out.add(b)
                    q.append(b)
        return out

    def derived(self, t):
        return {c for c in self.types if t in self.bases(c)}


def show(f, prog=None):
    """human-readable dump for diagnostics"""
    out = ["%s  %s:%s" % (f.name, short(f.file), f.line)]

    def so(o):
        if o[0] == "v":
            return "%%%d" % o[1]
        if o[0] in ("c", "d"):
            return str(o[1])
        if o[0] == "g":
            s = prog.gstr(o) if prog else None
            return "@" + o[1] + ((" " + repr(s)) if s is not None else "")
        if o[0] == "fn":
            return "&" + o[1]
        if o[0] == "a":
            n = f.args[o[1]]["name"] if o[1] < len(f.args) else ""
            return "$%d:%s" % (o[1], n)
        if o[0] == "cegep":
            return so(o[1]) + "." + ".".join(str(x) for x in o[2]["path"])
        return str(o)
    for n, b in enumerate(f.bbs):
        out.append("bb%d: ; preds %s" % (n, f.pred[n]))
        for i in b:
            s = "  %%%d = %s %s " % (i.i, i.op, i.ty)
            if i.op == "phi":
                s += ", ".join("[bb%d: %s]" % (a, so(v)) for a, v in i.d["in"])
            elif i.op == "getelementptr":
                s += so(i.ops[0]) + " " + " ".join(("[" + so(p[1]) + "]") if p[0] == "*" else ("." + p[2] if p[0] == "f" else str(p)) for p in i.d["path"])
            elif i.op == "br":
                s += (so(i.ops[0]) if i.ops else "") + " -> " + str(i.d["succ"])
            elif i.op == "switch":
                s += so(i.ops[0]) + " " + str(i.d["cases"]) + " default " + str(i.d["default"])
            elif i.op == "alloca":
                s += "%s %s" % (i.d.get("dvar") or i.d.get("var"), i.d["aty"])
            else:
                s += i.d.get("pred", "") + " " + (i.callee or "") + ("<" + i.d["fld"] + ">" if "fld" in i.d else "")
                if "virt" in i.d:
                    s += "VIRT" + str([t[0] for t in i.d["virt"]["targets"]])
                elif "fp" in i.d:
                    s += "FP" + so(i.d["fp"][0])
                s += "(" + ", ".join(so(o) for o in i.ops) + ")"
            l = i.d.get("loc")
            s += "   ; %s" % (l[1] if l else "")
            out.append(s)
    return "\n".join(out)
