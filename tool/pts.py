"""Whole-program inclusion-based points-to analysis (field-based on the last member name) over a set of functions.
Abstract objects: ("L", function, id) stack slots, ("H", function, id) heap allocations made inside the set,
("G", name) globals, ("S", why) anything that existed before (arguments of the entry points and what they reach)."""
import re
from collections import defaultdict
from ir import CASTS

NEW = re.compile(r"^(operator new(\[\])?\(|malloc$|calloc$|realloc$|strdup$)")
ACCESSOR = {"operator[]", "begin", "end", "cbegin", "cend", "rbegin", "rend", "at", "front", "back", "top", "data", "find", "get", "operator*",
            "operator->", "size", "empty", "c_str", "length", "count", "lower_bound", "upper_bound", "equal_range", "base", "capacity",
            "max_size", "native_handle", "load", "what", "second", "first"}
METHOD = re.compile(r"^(?:[\w&*:<>, ]+? )?((?:std::|__gnu_cxx::)[\w:]*?)(<.*>)?::(~?[\w]+|operator[^\w(]+|operator\(\)|operator \w+)(<.*>)?\((.*)\)( const)?$")


def method(callee):
    """(class, method, const) of a standard library member function"""
    c = callee or ""
    const = c.endswith(" const")
    depth, cut = 0, None
    # argument list: last top-level '('
    k = len(c) - (6 if const else 0)
    for j in range(k - 1, -1, -1):
        if c[j] == ")":
            depth += 1
        elif c[j] == "(":
            depth -= 1
            if depth == 0:
                cut = j
                break
    if cut is None:
        return None
    head = c[:cut]
    # drop return type / template args
    d, last, name = 0, None, None
    out = []
    for ch in head:
        if ch in "<" and not head[:len(out)].endswith("operator"):
            d += 1
        if d == 0:
            out.append(ch)
        elif ch == ">":
            d -= 1
            out.append("")
            continue
        if d:
            out.append("")
    h = "".join(out).strip()
    h = h.split(" ")[-1] if "operator " not in h else h[h.rfind(" ", 0, h.find("operator")) + 1:]
    if "::" not in h:
        return None
    cls, m = h.rsplit("::", 1)
    return cls, m, const


class PTS:
    def __init__(self, prog, funcs, entries, callees):
        self.p, self.funcs, self.callees = prog, funcs, callees
        self.pts = defaultdict(set)            # node -> objects
        self.cont = defaultdict(set)           # (object, key) -> objects
        self.entries = entries
        self.changed = True
        for f in entries:
            for k in range(len(f.args)):
                self.pts[("a", f.link, k)].add(("S", "%s argument %s" % (f.scoped, f.args[k]["name"] or k)))
        n = 0
        while self.changed and n < 60:
            self.changed = False
            n += 1
            for f in funcs:
                self.func(f)
        self.rounds = n

    def add(self, d, key, vals):
        s = d[key]
        k = len(s)
        s |= vals
        if len(s) != k:
            self.changed = True

    def of(self, f, o):
        t = o[0]
        if t == "v":
            return self.pts.get(("v", f.link, o[1]), set())
        if t == "a":
            return self.pts.get(("a", f.link, o[1]), set())
        if t == "g":
            g = self.p.globals.get(o[2])
            if g and (g.get("const") or "str" in g):
                return {("C", o[1])}
            return {("G", o[1])}
        if t == "cegep":
            return self.of(f, o[1])
        return set()

    def key(self, f, i):
        fld = i.d.get("fld")
        if fld:
            return fld.rsplit("::", 1)[-1]
        o = i.ops[0] if i.op == "load" else i.ops[1]
        return self.pkey(f, o)

    def pkey(self, f, o):
        n = 0
        while o[0] == "v" and n < 40:
            n += 1
            x = f.ins[o[1]]
            if x.op == "getelementptr":
                for p in reversed(x.d["path"]):
                    if p[0] == "f":
                        return p[2]
                o = x.ops[0]
            elif x.op in CASTS:
                o = x.ops[0]
            else:
                break
        return ""

    def load(self, objs, key):
        out = set()
        for o in objs:
            if o[0] in ("S", "G"):
                out.add(o)
            for (ob, k), v in list(self.cont.items()):
                if ob == o and (k == key or key == "" or k == "" or key == "*"):
                    out |= v
        return out

    def store(self, objs, key, vals):
        for o in objs:
            self.add(self.cont, (o, key), vals)

    def func(self, f):
        for i in f.all():
            op = i.op
            n = ("v", f.link, i.i)
            if op == "alloca":
                self.add(self.pts, n, {("L", f.link, i.i)})
            elif op in CASTS or op in ("getelementptr", "freeze"):
                self.add(self.pts, n, self.of(f, i.ops[0]))
            elif op in ("phi",):
                for _, o in i.d["in"]:
                    self.add(self.pts, n, self.of(f, o))
            elif op == "select":
                self.add(self.pts, n, self.of(f, i.ops[1]) | self.of(f, i.ops[2]))
            elif op in ("extractvalue", "insertvalue", "extractelement"):
                for o in i.ops:
                    self.add(self.pts, n, self.of(f, o))
            elif op == "load" and i.ty == "ptr":
                self.add(self.pts, n, self.load(self.of(f, i.ops[0]), self.key(f, i)))
            elif op == "store":
                v = self.of(f, i.ops[0])
                if v:
                    self.store(self.of(f, i.ops[1]), self.key(f, i), v)
            elif op == "ret" and i.ops:
                self.add(self.pts, ("r", f.link), self.of(f, i.ops[0]))
            elif op in ("call", "invoke"):
                self.call(f, i, n)

    def call(self, f, i, n):
        c = i.callee or ""
        tg = [t for t in self.callees(self.p, i) if t in self.p.all]
        direct = ("virt" in i.d) or (i.d.get("link") in self.p.all)
        if direct:
            for t in tg:
                g = self.p.all[t]
                for k in range(min(len(g.args), len(i.ops))):
                    v = self.of(f, i.ops[k])
                    if v:
                        self.add(self.pts, ("a", t, k), v)
                self.add(self.pts, n, self.pts.get(("r", t), set()))
            return
        if NEW.match(c):
            self.add(self.pts, n, {("H", f.link, i.i)})
            return
        if c.startswith("llvm.mem") and ("cpy" in c or "move" in c) or c in ("memcpy", "memmove"):
            d, s = self.of(f, i.ops[0]), self.of(f, i.ops[1])
            for o in s:
                if o[0] in ("S", "G"):
                    self.store(d, "", {o})
                for (ob, k), v in list(self.cont.items()):
                    if ob == o:
                        self.store(d, k, set(v))
            self.add(self.pts, n, d)
            return
        if c.startswith("llvm."):
            return
        # external: the receiver (first pointer) may keep what the others point to
        recv = self.of(f, i.ops[0]) if i.ops else set()
        rest = set()
        for o in i.ops[1:]:
            v = self.of(f, o)
            rest |= {x for x in v if x[0] != "C"} | self.load(v, "*")
        if rest and not (c.endswith(" const")):
            self.store(recv, "", rest)
        if i.ty == "ptr":
            self.add(self.pts, n, recv | self.load(recv, "*"))
