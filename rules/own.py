"""Ownership analysis: which fields own what they point to, which parameters a function takes over, and a
path-sensitive typestate run over every function that acquires, takes over or replaces something."""
import re
from collections import defaultdict
import flow, ir
from ir import CASTS, operands
from front import AnalysisError

ACQ = {"malloc": "free", "calloc": "free", "strdup": "free", "strndup": "free", "realpath": "free", "fopen": "fclose", "fdopen": "fclose",
       "tmpfile": "fclose", "opendir": "closedir", "TIFFOpen": "TIFFClose", "TIFFFdOpen": "TIFFClose", "_TIFFmalloc": "_TIFFfree",
       "_TIFFcalloc": "_TIFFfree", "png_create_write_struct": "png_destroy_write_struct", "png_create_read_struct": "png_destroy_read_struct",
       "png_create_info_struct": "png_destroy_info"}
FRIENDLY = {"free": "free()", "new": "delete", "new[]": "delete[]", "png_destroy_info": "png_destroy_*_struct"}
JPEG = re.compile(r"^jpeg_(Create|create_)(De)?(c|dec)?ompress$|^jpeg_Create(Dec|C)ompress$")
INSERT = re.compile(r"::(insert|emplace|push|push_back|push_front|emplace_back|emplace_front|insert_or_assign|try_emplace|assign|operator\[\])(<.*>)?\(")
SETJMP = re.compile(r"^_?_?(sig)?setjmp$")
CODEC = re.compile(r"^(png_|jpeg_)")


def cname(i):
    c = i.callee or ""
    m = re.match(r"^operator (new|delete)(\[\])?\(", c)
    if m:
        return m.group(1) + (m.group(2) or "")
    return c


def acquires(i):
    """family acquired by a call, or None"""
    c = cname(i)
    if c in ("new", "new[]"):
        return None if "std::nothrow" not in (i.callee or "") and len(i.ops) > 1 and i.ops[1][0] == "v" else c
    if c == "realpath" and (len(i.ops) < 2 or i.ops[1][0] != "null"):
        return None
    return ACQ.get(c)


def releases(f, i):
    """[(operand, family, through pointer-to-pointer)] released by a call"""
    c = cname(i)
    if "virt" in i.d:
        t = i.d["virt"]["targets"]
        if t and all(x[1].endswith("D0Ev") or "D0Ev" in x[1] for x in t):
            return [(i.ops[0], "new", False)]
        return []
    if c in ("delete", "delete[]"):
        return [(i.ops[0], "new" if c == "delete" else "new[]", False)]
    if c in ("free", "fclose", "closedir", "TIFFClose", "_TIFFfree"):
        return [(i.ops[0], c, False)]
    if c in ("png_destroy_write_struct", "png_destroy_read_struct"):
        out = [(i.ops[0], c, True)]
        out += [(o, "png_destroy_info", True) for o in i.ops[1:]]
        return out
    if c == "png_destroy_info_struct":
        return [(i.ops[1], "png_destroy_info", True)]
    return []


def is_std(c):
    """call into the C++ library (containers, pairs, iterators, algorithms)"""
    return bool(re.search(r"\b(std|__gnu_cxx)::", c or "")) and not re.match(r"^(operator (new|delete))", c or "")


def strip(f, o):
    while o[0] == "v":
        i = f.ins[o[1]]
        if i.op in CASTS or i.op in ("freeze", "getelementptr"):
            o = i.ops[0]
        else:
            break
    if o[0] == "cegep":
        return strip(f, o[1])
    return o


def gep_fields(f, o):
    """outermost-first fields crossed from the stripped base to o: [(class, name)] and whether an element step follows the last one"""
    out, q = [], o
    while q[0] == "v":
        i = f.ins[q[1]]
        if i.op == "getelementptr":
            for p in reversed(i.d["path"]):
                if p[0] == "f":
                    out.append((p[1], p[2]))
                elif p[0] in ("*", "i") or (p[0] == "+" and p[1] > 0):
                    out.append(("", "[]"))
            q = i.ops[0]
        elif i.op in CASTS or i.op == "freeze":
            q = i.ops[0]
        else:
            break
    return list(reversed(out)), q


def slot(f, mem):
    """(class, field, level) of the owned-pointer slot a load/store accesses: level 0 the field itself, 1 an element of the
    array the field is or points to; None if it is no field"""
    a = f.addr(mem)
    lvl = 0
    while isinstance(a, tuple) and a and a[0] == "idx":
        lvl = 1
        a = a[1]
    if isinstance(a, tuple) and a and a[0] == "load":
        b = a[1]
        if isinstance(b, tuple) and b and b[0] == "fld":
            return (b[2], b[3], 1) if lvl or True else None
        return None
    if isinstance(a, tuple) and a and a[0] == "fld":
        if a[2].startswith("std::") or a[2].startswith("__gnu"):
            return None
        return (a[2], a[3], lvl)
    return None


def restore_first(prog, f):
    """name the first member where a pointer to an object is used directly as a pointer to it"""
    ch = False
    dt = f.d.get("ditypes", [])
    for i in f.all():
        if (i.op == "load" and i.ty == "ptr") or i.op == "store":
            if i.d.get("fld"):
                continue
            a = f.addr(i)
            if isinstance(a, tuple) and a[:1] == ("arg",) and a[1] + 1 < len(dt):
                t = re.sub(r"\bconst\b|[*&]", "", dt[a[1] + 1]).strip()
                for x in prog.types.get(t, {}).get("fields", ()):
                    if x[2] == 0 and x[1].endswith("*"):
                        i.d["fld"] = "%s::%s" % (t, x[0])
                        ch = True
    if ch:
        f._ex.clear()


class Facts:
    """program-wide summaries on the un-inlined functions"""

    def __init__(self, prog):
        self.p = prog
        self.owned = {}                 # (class, field, level) -> set of families that release it
        self.cowned = set()             # container fields whose elements are released: (class, field)
        self.takes = defaultdict(dict)  # link -> {param: {"how"}}
        self.deref = set()              # links releasing / filling something behind a parameter
        self.returns = set()            # links returning something they acquired
        self.fields_of = defaultdict(set)
        self.ftype = {(c, x[0]): x[1] for c, t in prog.types.items() for x in t["fields"]}
        self.funcs = [f for f in prog.funcs if f.id == ""]
        self.cont_cache = {}
        for f in self.funcs:
            restore_first(prog, f)
        ch = True
        n = 0
        while ch and n < 12:
            before = (len(self.owned), len(self.cowned), sum(len(v) for v in self.takes.values()), len(self.deref), len(self.returns))
            for f in self.funcs:
                self.scan(f)
            n += 1
            ch = before != (len(self.owned), len(self.cowned), sum(len(v) for v in self.takes.values()), len(self.deref), len(self.returns))
        for (c, n, l) in self.owned:
            self.fields_of[c].add((n, l))
        for c, n in self.cowned:
            self.fields_of[c].add((n, "c"))

    # ---- container derivation
    def cont(self, f):
        """ssa id -> container fields (class, field) its value was obtained from"""
        if f.link in self.cont_cache and self.cont_cache[f.link][0] is f:
            return self.cont_cache[f.link][1]
        val = defaultdict(set)
        ch = True

        def of(o):
            s = strip(f, o)
            return val[s[1]] if s[0] == "v" else (val[("a", s[1])] if s[0] == "a" else set())
        rounds = 0
        while ch and rounds < 20:
            ch = False
            rounds += 1

            def add(k, s):
                nonlocal ch
                if s - val[k]:
                    val[k] |= s
                    ch = True
            for i in f.all():
                if i.op in ("call", "invoke"):
                    if (i.callee or "").startswith("llvm.mem") and len(i.ops) > 1:
                        s = strip(f, i.ops[0])
                        if s[0] == "v":
                            add(s[1], set(of(i.ops[1])))
                        continue
                    if not is_std(i.callee):
                        continue
                    src = set()
                    for k, o in enumerate(i.ops):
                        src |= of(o)
                        if k == 0:
                            cf = self.container_field(f, i)
                            if cf:
                                src.add(cf)
                    add(i.i, src)
                    if i.ops:
                        s = strip(f, i.ops[0])
                        if s[0] == "v" and f.ins[s[1]].op == "alloca":
                            add(s[1], src)
                elif i.op == "load":
                    add(i.i, set(of(i.ops[0])))
                elif i.op == "store":
                    s = strip(f, i.ops[1])
                    if s[0] == "v" and f.ins[s[1]].op == "alloca":
                        add(s[1], set(of(i.ops[0])))
                elif i.op in ("phi", "select", "extractvalue", "insertvalue"):
                    src = set()
                    for o in operands(i):
                        src |= of(o)
                    add(i.i, src)
        self.cont_cache[f.link] = (f, val)
        return val

    def container_field(self, f, i):
        """(class, field) of the project object's container a library method is called on"""
        fs, b = gep_fields(f, i.ops[0])
        if fs and fs[-1][1] == "[]":
            return None
        if fs and fs[-1][0] and not fs[-1][0].startswith(("std::", "__gnu")):
            k = fs[-1]
            t = self.ftype.get(k, "")
            # the first member shares the address of its object
            n = 0
            while t and not t.startswith(("std::", "__gnu")) and t in self.p.types and n < 5:
                fl = [x for x in self.p.types[t]["fields"] if x[2] == 0]
                if not fl:
                    break
                k, t, n = (t, fl[0][0]), fl[0][1], n + 1
            return k
        if not fs:
            t = None
            if b[0] == "a":
                dt = f.d.get("ditypes", [])
                if b[1] + 1 < len(dt):
                    t = re.sub(r"\bconst\b|[*&]", "", dt[b[1] + 1]).strip()
            n, k = 0, None
            while t and t in self.p.types and n < 5 and not t.startswith(("std::", "__gnu")):
                fl = [x for x in self.p.types[t]["fields"] if x[2] == 0]
                if not fl:
                    break
                k, t, n = (t, fl[0][0]), fl[0][1], n + 1
            if k and t and t.startswith(("std::", "__gnu")):
                return k
        return None

    def container_args(self, f, i):
        """container fields a library call works on through its object argument"""
        if not is_std(i.callee) or not i.ops:
            return set()
        k = self.container_field(f, i)
        return {k} if k else set()

    def own(self, key, fam):
        self.owned.setdefault(key, set())
        if fam not in self.owned[key]:
            self.owned[key].add(fam)

    def release_target(self, f, o, fam, thru, seen=()):
        """what a released operand came from"""
        s = strip(f, o)
        if s[0] == "a":
            if thru:
                self.deref.add(f.link)
            else:
                self.takes[f.link].setdefault(s[1], set()).add("release")
            return
        if s[0] != "v" or s[1] in seen:
            return
        i = f.ins[s[1]]
        if i.op in ("phi", "select"):
            for x in (operands(i) if i.op == "phi" else i.ops[1:]):
                self.release_target(f, x, fam, thru, seen + (s[1],))
            return
        if i.op == "load":
            c = self.cont(f)[i.i]
            k = slot(f, i)
            if c:
                self.cowned |= c
                if k and not k[0].startswith("std::"):
                    self.own(k, fam)
                return
            if k:
                self.own(k, fam)
                return
            b = strip(f, i.ops[0])
            while b[0] == "v" and f.ins[b[1]].op == "load":
                b = strip(f, f.ins[b[1]].ops[0])
            if b[0] == "a":
                self.deref.add(f.link)
            elif b[0] == "v" and f.ins[b[1]].op == "alloca":
                # a local variable: whatever was stored to it
                for u in f.all():
                    if u.op == "store" and strip(f, u.ops[1]) == b and u.ops[0][0] in ("v", "a"):
                        if f.addr(u) == f.addr(i):
                            self.release_target(f, u.ops[0], fam, thru, seen + (s[1],))

    # ---- forward flow of one value
    def carriers(self, f, start):
        """ssa ids / allocas a value may be held in (copies through locals and library pairs)"""
        vals, slots = {start}, set()
        ch = True
        while ch:
            ch = False
            for i in f.all():
                if i.op in ("phi", "select", "freeze") or i.op in CASTS:
                    ops = operands(i) if i.op != "select" else i.ops[1:]
                    if ("v", i.i) not in vals and any(tuple(o[:2]) in vals for o in ops if o[0] in ("v", "a")):
                        vals.add(("v", i.i))
                        ch = True
                elif i.op == "getelementptr":
                    if ("v", i.i) not in vals and i.ops[0][0] in ("v", "a") and tuple(i.ops[0][:2]) in vals and i.ty == "ptr" and \
                            all(p[0] == "b" or (p[0] in ("i", "+") and p[1] <= 0) for p in i.d["path"]):
                        vals.add(("v", i.i))
                        ch = True
                elif i.op == "store" and i.ops[0][0] in ("v", "a") and tuple(i.ops[0][:2]) in vals:
                    b = strip(f, i.ops[1])
                    if b[0] == "v" and f.ins[b[1]].op == "alloca" and b[1] not in slots:
                        slots.add(b[1])
                        ch = True
                elif i.op == "load":
                    b = strip(f, i.ops[0])
                    if b[0] == "v" and b[1] in slots and ("v", i.i) not in vals and i.ty == "ptr":
                        vals.add(("v", i.i))
                        ch = True
                elif i.op in ("extractvalue", "insertvalue"):
                    if ("v", i.i) not in vals and any(tuple(o[:2]) in vals for o in i.ops if o[0] in ("v", "a")):
                        vals.add(("v", i.i))
                        ch = True
                elif i.op in ("call", "invoke") and (is_std(i.callee) or (i.callee or "").startswith("llvm.memcpy")):
                    hit = any((o[0] in ("v", "a") and tuple(o[:2]) in vals) or (strip(f, o)[0] == "v" and strip(f, o)[1] in slots) for o in i.ops)
                    if hit:
                        if ("v", i.i) not in vals and re.search(r"make_pair|make_tuple|forward|move|pair<", i.callee):
                            vals.add(("v", i.i))
                            ch = True
                        if i.ops:
                            b = strip(f, i.ops[0])
                            if b[0] == "v" and f.ins[b[1]].op == "alloca" and b[1] not in slots:
                                slots.add(b[1])
                                ch = True
        return vals, slots

    def sinks(self, f, vals, slots):
        """reasons the value ends up owned by someone"""
        out = set()
        hit = lambda o: (o[0] in ("v", "a") and tuple(o[:2]) in vals)
        hits = lambda o: hit(o) or (strip(f, o)[0] == "v" and strip(f, o)[1] in slots)
        for i in f.all():
            if i.op == "store" and hit(i.ops[0]):
                b = strip(f, i.ops[1])
                if b[0] == "v" and f.ins[b[1]].op == "alloca":
                    continue
                k = slot(f, i)
                if k and k in self.owned:
                    out.add("store " + "::".join(k[:2]))
            elif i.op in ("call", "invoke"):
                if INSERT.search(i.callee or "") and self.container_args(f, i) & self.cowned and any(hits(o) for o in i.ops[1:]):
                    out.add("container")
                for k, o in enumerate(i.ops):
                    if hit(o):
                        how = self.call_takes(f, i, k)
                        out |= how
                for o, fam, thru in releases(f, i):
                    if hit(o) or hit(strip(f, o)):
                        out.add("release")
        return out

    def call_takes(self, f, i, k):
        ts = [t[1] for t in i.d["virt"]["targets"]] if "virt" in i.d else ([i.d["link"]] if i.d.get("link") else [])
        hows = [self.takes[t].get(k) for t in ts if t in self.p.all]
        if hows and all(hows):
            r = set()
            for h in hows:
                r |= h
            return r
        return set()

    def is_ptr(self, f, k):
        dt = f.d.get("ditypes", [])
        return k + 1 < len(dt) and dt[k + 1].endswith("*")

    def scan(self, f):
        if "D0Ev" in f.link:
            return
        for i in f.calls():
            for o, fam, thru in releases(f, i):
                self.release_target(f, o, fam, thru)
            # a field whose value is handed to somebody who takes it over is an owner until then
            for k, o in enumerate(i.ops):
                how = self.call_takes(f, i, k)
                if "release" in how:
                    s = strip(f, o)
                    if s[0] == "v" and f.ins[s[1]].op == "load":
                        c = self.cont(f)[s[1]]
                        kk = slot(f, f.ins[s[1]])
                        if kk:
                            self.own(kk, None)
                        if c:
                            self.cowned |= c
        for k, a in enumerate(f.args):
            if a["ty"] != "ptr" or (k == 0 and a["name"] == "this") or not self.is_ptr(f, k):
                continue
            vals, slots = self.carriers(f, ("a", k))
            how = self.sinks(f, vals, slots)
            if how:
                self.takes[f.link].setdefault(k, set()).update(how)
        # values acquired here that leave through the return value or a pointer parameter
        for i in f.calls():
            fam = acquires(i)
            ret = i.d.get("link") in self.returns
            if not fam and not ret:
                continue
            vals, slots = self.carriers(f, ("v", i.i))
            for r in f.rets():
                if r.ops and r.ops[0][0] == "v" and (tuple(r.ops[0][:2]) in vals or tuple(strip(f, r.ops[0])[:2]) in vals):
                    if not (self.sinks(f, vals, slots) - {"release"}):
                        self.returns.add(f.link)
            for s in f.all():
                if s.op == "store" and s.ops[0][0] == "v" and tuple(s.ops[0][:2]) in vals:
                    b = strip(f, s.ops[1])
                    if b[0] == "a" and not (b[1] == 0 and f.args and f.args[0]["name"] == "this"):
                        k = slot(f, s)
                        if not (k and k in self.owned):
                            self.deref.add(f.link)

    def dtor_releases(self, c, n):
        return any(kind_of(f) == "dtor" and cls_of(f) == c for f in self.funcs)

    def inline_set(self):
        return self.returns | self.deref


def cls_of(f):
    """class of a member function from its demangled name (None for free functions)"""
    if not f.args or f.args[0]["name"] != "this":
        return None
    n = f.name
    cut = n.find("(")
    head = n[:cut] if cut > 0 else n
    # split at the last :: outside template brackets
    d, pos = 0, -1
    for k in range(len(head)):
        ch = head[k]
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif ch == ":" and d == 0 and head[k:k + 2] == "::":
            pos = k
            if head[k + 2:].startswith("operator"):
                break
    if pos < 0:
        return None
    c = head[:pos]
    while "<" in c:
        n = re.sub(r"<[^<>]*>", "", c)
        if n == c:
            break
        c = n
    return c.split(" ")[-1]


def kind_of(f):
    c = cls_of(f)
    if not c:
        return None
    base = c.rsplit("::", 1)[-1].split("<")[0]
    n = f.name.replace(" (.irclone)", "")
    for _ in range(4):
        n = re.sub(r"<[^<>]*>(?=[^()]*::)", "", n) if "<" in n.split("(")[0] else n
    m = n[n.find(c) + len(c) + 2:]
    if m.startswith("~"):
        return "dtor"
    if m.startswith(base + "("):
        args = m[len(base) + 1:].rstrip(")")
        if re.match(r"^%s(<.*>)? const&$" % re.escape(c.split("<")[0]), args) or re.match(r"^%s(<.*>)?&&$" % re.escape(c.split("<")[0]), args):
            return "copy"
        return "ctor"
    if m.startswith("operator="):
        return "assign"
    return "method"
