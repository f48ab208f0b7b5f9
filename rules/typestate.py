"""Path-sensitive typestate run of one function over the tokens of own.py: what it acquired, what it was given to keep,
and what the owning fields it touches held on entry."""
import re
import flow, ir
from fallible import flags
from ir import CASTS, operands
from own import (acquires, releases, is_std, strip, slot, cname, cls_of, kind_of, SETJMP, CODEC, INSERT, FRIENDLY, gep_fields)

H, M, N, R, E, U, B = "held", "kept", "null", "released", "handed over", "undetermined", "borrowed"
NEED = {"fclose", "closedir", "TIFFClose"}      # must not be given NULL
ARRAY_NEW = "new[]"


def live_ids(f):
    """block -> ids needed at its start or later (through address and cast chains)"""
    if "_own_live" in f.__dict__:
        return f.__dict__["_own_live"]
    memo = {}

    def need(o):
        if o[0] == "cegep":
            return need(o[1])
        if o[0] != "v":
            return frozenset()
        if o[1] in memo:
            return memo[o[1]]
        memo[o[1]] = frozenset([o[1]])
        r = {o[1]}
        i = f.ins[o[1]]
        if i.op in CASTS or i.op in ("freeze", "getelementptr", "icmp", "and", "or", "xor"):
            for x in i.ops:
                r |= need(x)
        memo[o[1]] = frozenset(r)
        return memo[o[1]]
    n = len(f.bbs)
    gen, defs, out = [set() for _ in range(n)], [set() for _ in range(n)], [set() for _ in range(n)]
    for b in range(n):
        for i in f.bbs[b]:
            defs[b].add(i.i)
            if i.op == "phi":
                for pb, o in i.d["in"]:
                    out[pb] |= need(o)
            else:
                for o in i.ops:
                    gen[b] |= need(o)
    live = [set() for _ in range(n)]
    work = list(range(n))
    while work:
        b = work.pop()
        o = set(out[b])
        for s in set(f.succ.get(b, ())):
            o |= live[s]
        new = (gen[b] | o) - defs[b]
        if new - live[b]:
            live[b] |= new
            work.extend(f.pred.get(b, ()))
    f.__dict__["_own_live"] = live
    return live


def loops_of(f):
    """[(header, blocks, latches)]"""
    if "_own_loops" in f.__dict__:
        return f.__dict__["_own_loops"]
    dom = f.dom()
    out = {}
    for b in range(len(f.bbs)):
        if b not in dom:
            continue
        for s in set(f.succ.get(b, ())):
            if s in dom[b]:
                body, q = {s, b}, [b]
                while q:
                    x = q.pop()
                    if x == s:
                        continue
                    for p in f.pred.get(x, ()):
                        if p not in body and p in dom:
                            body.add(p)
                            q.append(p)
                if s in out:
                    out[s] = (s, out[s][1] | body, out[s][2] | {b})
                else:
                    out[s] = (s, body, {b})
    f.__dict__["_own_loops"] = list(out.values())
    return f.__dict__["_own_loops"]


def every_iteration(f, loop, i, o=None):
    """instruction i runs in every iteration, apart from those whose pointer is null"""
    h, body, latches = loop
    d = f.dom()
    if all(i.bb in d.get(l, ()) for l in latches):
        return True
    # the only way around i inside the loop is the null edge of a test of its operand
    seen, q = {h}, [h]
    tgt = strip(f, o or i.ops[0]) if i.ops else None
    while q:
        b = q.pop()
        if b == i.bb:
            continue
        if b in latches:
            return False
        t = f.term(b)
        for k, s in enumerate(t.d.get("succ", ()) if t and t.op == "br" else set(f.succ.get(b, ()))):
            if s not in body or s in seen or s == h:
                continue
            if t.op == "br" and t.ops and t.ops[0][0] == "v":
                c = f.ins[t.ops[0][1]]
                if c.op == "icmp" and c.d["pred"] in ("eq", "ne") and c.ops[1][0] in ("null", "c"):
                    x = strip(f, c.ops[0])
                    same = x[:2] == tgt[:2] or (x[0] == "v" and tgt[0] == "v" and f.ex(list(x)) == f.ex(list(tgt)))
                    if same and (k == 0) == (c.d["pred"] == "eq"):
                        continue
            seen.add(s)
            q.append(s)
    return True


def const_index(f, o):
    """constant position an address has in the array it lies in, None if it varies"""
    k = 0
    while o[0] == "v":
        i = f.ins[o[1]]
        if i.op == "getelementptr":
            for p in i.d["path"]:
                if p[0] == "+":
                    k += p[1]
                elif p[0] != "b" and not (p[0] == "i" and p[1] == 0):
                    return None
            o = i.ops[0]
        elif i.op in CASTS or i.op == "freeze":
            o = i.ops[0]
        else:
            return k
    return k


def subst(e):
    if not isinstance(e, tuple):
        return e
    if e[:2] == ("arg", 1):
        return ("arg", 0) + e[2:]
    return tuple(subst(x) for x in e)


class Run:
    def __init__(self, F, f, alias=False):
        self.alias = alias          # assignment of an object to itself: parameter 1 is this
        self.F, self.f, self.p = F, f, F.p
        self.cls, self.kind = cls_of(f), kind_of(f)
        self.viol = {}
        self.sites = {}
        self.resume = {}            # setjmp id -> set of states
        self.live = live_ids(f)
        self.takes = {}
        if f.link in F.takes:
            self.takes = {k: h for k, h in F.takes[f.link].items() if k < len(f.args)}
        self.insert_hits = self.inserts()
        self.fieldclasses = {}
        self.outparam = False

    def inserts(self):
        """call id -> values (('v', id) / ('a', k)) that reach an owning container through it"""
        f, out = self.f, {}
        calls = []
        for i in f.calls():
            if INSERT.search(i.callee or "") and is_std(i.callee) and i.ops:
                k = self.F.container_field(f, i)
                # a local container, or one of the caller, keeps it for somebody else; a field that is no owner does not
                if not self.holds_pointers(i):
                    continue
                if k in self.F.cowned or k is None:
                    calls.append(i)
        if not calls:
            return out
        src = [("v", i.i) for i in f.calls() if acquires(i)] + [("a", k) for k in self.takes]
        for s in src:
            vals, slots = self.F.carriers(f, s)
            for i in calls:
                for o in i.ops[1:]:
                    b = strip(f, o)
                    if (o[0] in ("v", "a") and tuple(o[:2]) in vals) or (b[0] == "v" and b[1] in slots):
                        out.setdefault(i.i, set()).add(s)
        return out

    def holds_pointers(self, i):
        """the container keeps pointers, or structures of pointers, rather than objects built from what they are given"""
        c = i.callee
        head = c[:INSERT.search(c).start()]
        if "*" in head:
            return True
        if "emplace" in c[len(head):]:
            return False
        return any(re.search(r"\b%s\b" % re.escape(t), head) and any(x[1].endswith("*") for x in d["fields"])
                   for t, d in self.p.types.items() if not t.startswith(("std::", "__gnu")))

    def addr(self, i):
        a = self.f.addr(i)
        return subst(a) if self.alias else a

    # ---- reports
    def bad(self, rule, i, what, detail):
        k = (rule, what)
        if k not in self.viol:
            self.viol[k] = (i.where() if i is not None else "%s:%s" % (self.f.d.get("file"), self.f.d.get("line")), detail)

    def name(self, t):
        if t[0] in ("s", "o"):
            return cname(self.f.ins[t[1]]) + "()"
        if t[0] == "p":
            return "parameter %s" % (self.f.args[t[1]]["name"] or t[1])
        if t[0] == "f":
            return "field %s" % t[2]
        if t[0] == "e":
            return "element of " + self.name(t[1])
        if t[0] == "j":
            return "codec session"
        return str(t)

    # ---- values
    def tok(self, o, env, d=0):
        f = self.f
        while True:
            if o[0] == "cegep":
                return None
            if o[0] == "a":
                return env.get(("a", o[1]))
            if o[0] != "v":
                return None
            if o[1] in env:
                return env[o[1]]
            i = f.ins[o[1]]
            if i.op in CASTS or i.op == "freeze":
                o = i.ops[0]
            elif i.op == "getelementptr" and all(p[0] == "b" or p[0] == "+" or (p[0] == "i" and p[1] == 0) for p in i.d["path"]):
                if any(p[0] == "+" for p in i.d["path"]):
                    t = self.tok(i.ops[0], env)
                    return t if t and (t[0] in ("s", "o") and acquires(f.ins[t[1]]) == ARRAY_NEW or t[0] == "f") else None
                o = i.ops[0]
            elif i.op == "select":
                a, b = self.tok(i.ops[1], env, d + 1), self.tok(i.ops[2], env, d + 1)
                return a or b
            else:
                return None

    def base(self, o, env):
        """token of the object an address lies in"""
        f = self.f
        while o[0] == "v":
            if o[1] in env:
                return env[o[1]]
            i = f.ins[o[1]]
            if i.op in CASTS or i.op in ("freeze", "getelementptr"):
                o = i.ops[0]
            else:
                return None
        if o[0] == "a":
            return env.get(("a", o[1]))
        return None

    def aroot(self, o):
        s = strip(self.f, o)
        if self.alias and s[:2] == ["a", 1] or self.alias and tuple(s[:2]) == ("a", 1):
            return "this"
        if s[0] == "v":
            i = self.f.ins[s[1]]
            return "alloca" if i.op == "alloca" else "mem"
        return "this" if s[0] == "a" and s[1] == 0 and self.f.args and self.f.args[0]["name"] == "this" else s[0]

    def owned_slot(self, i):
        k = slot(self.f, i)
        return k if k and k[2] == 0 and k in self.F.owned else None

    def entry(self, i, k, a, toks, cells):
        """token an owning field held when the function was entered"""
        s = strip(self.f, i.ops[0 if i.op == "load" else 1])
        mine = self.aroot(i.ops[0 if i.op == "load" else 1])
        t = ("f", k[0], k[1], a)
        if mine == "this":
            if self.kind in ("ctor", "copy") and k[0] == self.cls:
                toks[t] = U
            else:
                toks[t] = H if self.F.dtor_releases(k[0], k[1]) else B
        elif mine == "alloca":
            # an object of the function itself: its constructor and destructor run here as calls
            toks[t] = B
        else:
            toks[t] = B
        cells[a] = t
        return t

    # ---- transfer
    def run(self):
        f = self.f
        toks, env = {}, {}
        for k in self.takes:
            env[("a", k)] = ("p", k)
            toks[("p", k)] = H
        init = self.pack(toks, env, {}, {}, None)
        for _ in range(8):
            self.grown = False
            self.nstates = sum(len(v) for v in flow.simulate(f, init, self.step, self.edge, prune=True, limit=3000, keep=flags(f)).values())
            if not self.grown:
                break
        return self.viol

    @staticmethod
    def pack(toks, env, cells, elems, jmp):
        return (frozenset(toks.items()), frozenset(env.items()), frozenset(cells.items()), frozenset(elems.items()), jmp)

    @staticmethod
    def unpack(st):
        return dict(st[0]), dict(st[1]), dict(st[2]), dict(st[3]), st[4]

    def interesting(self, i):
        return i.op in ("load", "store", "call", "invoke", "ret", "select")

    def step(self, i, st, facts):
        if not self.interesting(i):
            return (st,)
        f, F = self.f, self.F
        toks, env, cells, elems, jmp = self.unpack(st)
        if i.op == "load":
            b = self.base(i.ops[0], env)
            if b and toks.get(b) == R:
                self.bad("use", i, self.name(b), "read through a pointer to something released on this path")
            a = self.addr(i)
            if i.ty != "ptr":
                return (st,)
            env.pop(i.i, None)
            k = self.owned_slot(i)
            if a in cells:
                if cells[a] is not None:
                    env[i.i] = cells[a]
            elif k and (self.aroot(i.ops[0]) != "v" and not ir.contains(a, lambda y: y[:1] == ("call",))):
                env[i.i] = self.entry(i, k, a, toks, cells)
            elif b is not None and self.aroot(i.ops[0]) != "alloca":
                sl = slot(f, i)
                if sl is None or sl[2] == 1:
                    env[i.i] = ("e", b, const_index(f, i.ops[0]))
            return (self.pack(toks, env, cells, elems, jmp),)
        if i.op == "select":
            return (st,)
        if i.op == "store":
            b = self.base(i.ops[1], env)
            if b and toks.get(b) == R:
                self.bad("use", i, self.name(b), "written through a pointer to something released on this path")
            t = self.tok(i.ops[0], env)
            if t is not None and t[0] == "e":
                t = None
            a = self.addr(i)
            k = self.owned_slot(i)
            root = self.aroot(i.ops[1])
            if t is not None and toks.get(t) == N:
                t = None
            if k:
                if a not in cells and root == "this":
                    self.entry(i, k, a, toks, cells)
                old = cells.get(a)
                src = i.ops[0]
                if t is not None and t[0] == "f" and t[3] != a and toks.get(t) in (B, H, M) and (t[1], t[2]) == (k[0], k[1]) and toks.get(t) == B:
                    self.bad("share", i, "%s::%s" % k[:2], "the field is given the pointer another object owns: both release it")
                fam = self.family(t)
                fams = {x for x in F.owned[k] if x}
                if t is not None and fam and fams and fam not in fams:
                    self.bad("family", i, "%s::%s" % k[:2], "obtained with %s but the field is released with %s" % (
                        self.name(t), ", ".join(sorted(FRIENDLY.get(x, x) for x in fams))))
                if t is not None and toks.get(t) == R:
                    self.bad("use", i, self.name(t), "a released pointer is stored in %s::%s" % k[:2])
                if root in ("this", "alloca") or a in cells:
                    cells[a] = t
                    if t is not None and root != "this" and not self.mine(a):
                        toks[t] = E if toks.get(t) in (H, M) and root != "alloca" else toks[t]
                elif t is not None and toks.get(t) in (H, M):
                    toks[t] = E
            elif root == "alloca" or (root == "this" and (t is not None or a in cells) and isinstance(a, tuple) and a[0] == "fld"):
                cells[a] = t
            elif b is not None and b != t and toks.get(b) in (H, M, E, B, U) and (slot(f, i) is None or slot(f, i)[2] == 1):
                if t is not None and toks.get(t) in (H, M):
                    toks[t] = E
                    n = const_index(f, i.ops[1])
                    elems[b if n is None else ("#", b, n)] = "held"
            else:
                s = slot(f, i)
                if s and s[2] == 1 and s in F.owned and t is not None and toks.get(t) in (H, M):
                    toks[t] = E
                elif t is not None and s is None and self.aroot(i.ops[1]) != "this" and toks.get(t) in (H, M):
                    toks[t] = E
            st2 = self.gc(i, toks, env, cells, elems, jmp, None)
            return (st2,)
        if i.op == "ret":
            if i.ops and i.ty == "ptr" or i.ops:
                t = self.tok(i.ops[0], env)
                if t is not None:
                    if toks.get(t) == R:
                        self.bad("use", i, self.name(t), "a released pointer is returned")
                    if t[0] in ("s", "o", "p") and toks.get(t) in (H, M):
                        toks[t] = E
            self.finish(i, toks, env, cells, elems)
            return None
        # ---- calls
        c = cname(i)
        if c.startswith("llvm."):
            if c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                for o in i.ops[:2] if not c.startswith("llvm.memset") else i.ops[:1]:
                    b = self.base(o, env)
                    if b and toks.get(b) == R:
                        self.bad("use", i, self.name(b), "accessed after it was released")
                if self.alias and not c.startswith("llvm.memset"):
                    b = self.base(i.ops[0], env)
                    if b and b[0] == "s" and b == self.base(i.ops[1], env):
                        self.bad("share", i, self.name(b), "assigned to itself, the object copies from the new array instead of its old one")
                e = f.ex(i.ops[0])
                if self.aroot(i.ops[0]) == "alloca":
                    for a in [x for x in cells if ir.contains(x, lambda y: y == e)]:
                        del cells[a]
            return (self.pack(toks, env, cells, elems, jmp),)
        if SETJMP.match(c):
            dominated = {k: v for k, v in env.items()}
            me = (i.i, frozenset(dominated))
            out = [("learn", 0, self.pack(toks, env, cells, elems, i.i))]
            for s in self.resume.get(i.i, ()):
                t2, e2, c2, l2, _ = self.unpack(s)
                e2 = {k: v for k, v in e2.items() if k in dominated}
                out.append(("learn", 1, self.pack(t2, e2, c2, l2, None)))
            return out
        if jmp is not None and CODEC.match(c) and not re.match(r"(png|jpeg)_destroy", c):
            s = self.pack(toks, env, cells, elems, None)
            if s not in self.resume.setdefault(jmp, set()):
                self.resume[jmp].add(s)
                self.grown = True
        if re.match(r"^jpeg_(Create|create_)(Dec|C|dec|c)ompress", c):
            t = ("j", f.ex(i.ops[0]))
            if toks.get(t) == M:
                self.bad("leak", i, "codec session", "created again while the previous one is still open")
            toks[t] = M
            self.sites[i.i] = c
            return (self.pack(toks, env, cells, elems, jmp),)
        if re.match(r"^jpeg_destroy", c):
            toks.pop(("j", f.ex(i.ops[0])), None)
            return (self.pack(toks, env, cells, elems, jmp),)
        rel = releases(f, i)
        for o, fam, thru in rel:
            if thru:
                if o[0] == "null":
                    continue
                a = f.ex(o)
                t = cells.get(a)
                if t is not None:
                    self.release(i, t, fam, toks, elems)
                    cells[a] = None
                continue
            t = self.tok(o, env)
            if t is None:
                continue
            self.release(i, t, fam, toks, elems)
            if t[0] in ("s", "o"):
                self.same_type(i, o, t)
        fam = acquires(i)
        ret = None
        if fam:
            t = ("s", i.i)
            if t in toks:
                # the one obtained before is still around
                o = ("o", i.i)
                if toks.get(o) in (H, M):
                    self.bad("leak", i, self.name(t), "obtained again while the previous ones are still held")
                env = {k: (o if v == t else v) for k, v in env.items()}
                cells = {k: (o if v == t else v) for k, v in cells.items()}
                toks[o] = toks.pop(t)
                for k in [k for k in elems if k == t or (k[0] == "#" and k[1] == t)]:
                    elems[o if k == t else ("#", o, k[2])] = elems.pop(k)
            toks[t] = M if fam in ("new", "new[]") else H
            for k in [k for k in elems if k == t or (k[0] == "#" and k[1] == t)]:
                del elems[k]
            env[i.i] = t
            self.sites[i.i] = c
            return (self.pack(toks, env, cells, elems, jmp),)
        if i.i in self.insert_hits:
            for s in self.insert_hits[i.i]:
                t = ("s", s[1]) if s[0] == "v" else ("p", s[1])
                if toks.get(t) in (H, M):
                    toks[t] = E
        if not rel:
            for k, o in enumerate(i.ops):
                if o[0] not in ("v", "a"):
                    continue
                t = self.tok(o, env) or self.base(o, env)
                if t is None:
                    continue
                if toks.get(t) == R:
                    self.bad("use", i, self.name(t), "handed to %s after it was released" % c.split("(")[0])
                direct = self.tok(o, env)
                if k and direct is not None and toks.get(direct) in (H, M) and is_std(c) and re.search(r"\b(unique_ptr|shared_ptr|__shared_ptr|__uniq_ptr_\w*)<", c):
                    toks[direct] = E
                if direct is not None and direct in toks and F.call_takes(f, i, k):
                    if toks[direct] == E and direct[0] != "f":
                        self.bad("double", i, self.name(direct), "handed over to %s although somebody else already owns it" % c.split("(")[0])
                    if toks[direct] == B and direct[0] == "f" and "release" in F.call_takes(f, i, k):
                        toks[direct] = R
                    elif toks[direct] in (H, M):
                        toks[direct] = E
        env.pop(i.i, None)
        return (self.gc(i, toks, env, cells, elems, jmp, None),)

    def family(self, t):
        if t is None:
            return None
        if t[0] in ("s", "o"):
            i = self.f.ins[t[1]]
            a = acquires(i)
            from own import ACQ
            return a if a in ("new", "new[]") else ACQ.get(cname(i))
        if t[0] == "f":
            x = {y for y in self.F.owned.get((t[1], t[2], 0), ()) if y}
            return next(iter(x)) if len(x) == 1 else None
        return None

    def release(self, i, t, fam, toks, elems):
        if t[0] == "e":
            for k in [k for k in elems if k[0] == "#" and k[1] == t[1] and t[2] in (None, k[2])]:
                del elems[k]
            if t[2] is None or t[1] in elems:
                elems[t[1]] = "some"
            return
        s = toks.get(t)
        n = self.name(t)
        got = self.family(t)
        if got and fam and got != fam and t[0] in ("s", "o"):
            self.bad("family", i, n, "obtained with %s but released with %s" % (n, FRIENDLY.get(fam, fam)))
        if s == R:
            self.bad("double", i, n, "released a second time on this path")
        elif s == E and t[0] in ("s", "o", "p"):
            self.bad("double", i, n, "released although it was handed over to somebody who releases it")
        elif s == U:
            self.bad("undef", i, n, "released before it was given a value")
        elif s in (N, H) and fam in NEED and (s == N or t[0] in ("s", "o")):
            self.bad("null", i, n, "%s may be given NULL: the result of %s is not known to be valid here" % (fam, n))
        if s == N:
            return
        if (elems.get(t) == "held" or any(k[0] == "#" and k[1] == t for k in elems)) and t[0] in ("s", "o"):
            self.bad("leak", i, "elements of " + n, "the array is released while its elements are still held")
        toks[t] = R

    def same_type(self, i, o, t):
        """an object is destroyed as what it was created as"""
        f = self.f
        if cname(i) != "delete":
            return
        new = f.ins[t[1]]
        a, b = (new.ops[0] if new.ops else None), (i.ops[1] if len(i.ops) > 1 else None)
        if a and b and a[0] == "c" and b[0] == "c" and a[1] != b[1]:
            self.bad("family", i, self.name(t), "created with %d bytes and destroyed as a type of %d bytes" % (a[1], b[1]))
        made, dead = set(), set()
        for u in f.calls():
            if not u.ops or u.callee is None or "virt" in u.d:
                continue
            c = re.sub(r"<[^<>]*>", "", u.callee.split("(")[0])
            parts = c.split("::")
            if len(parts) < 2:
                continue
            if parts[-1] == parts[-2] and strip(f, u.ops[0]) == ["v", new.i]:
                made.add(parts[-2])
            elif parts[-1] == "~" + parts[-2] and f.ex(u.ops[0]) == f.ex(o):
                dead.add(parts[-2])
        if made and dead and not (made & dead):
            self.bad("family", i, self.name(t), "created as %s and destroyed as %s" % (", ".join(sorted(made)), ", ".join(sorted(dead))))

    def mine(self, a):
        """cell of a field of this"""
        return isinstance(a, tuple) and ir.contains(a, lambda y: y == ("arg", 0) or (isinstance(y, tuple) and y[:2] == ("arg", 0)))

    def gc(self, i, toks, env, cells, elems, jmp, block, final=False):
        """forget what is unreachable; what was still held is lost"""
        refs = set(env.values()) | set(v for v in cells.values() if v)
        refs |= {t[1] for t in refs if t[0] == "e"}
        if block is None and i is not None and not final:
            # values still needed in this block or later
            pass
        for t in list(toks):
            if t[0] == "j" or t in refs:
                continue
            s = toks[t]
            if s in (H, M):
                self.bad("leak", i, self.name(t), "nothing refers to it any more on this path, and it was neither released nor handed over")
            del toks[t]
            for k in [k for k in elems if k == t or (k[0] == "#" and k[1] == t)]:
                del elems[k]
        return self.pack(toks, env, cells, elems, jmp)

    def edge(self, st, b, n, facts):
        f = self.f
        toks, env, cells, elems, jmp = self.unpack(st)
        t = f.term(b)
        # ---- null tests
        if t.op == "br" and t.ops and t.d["succ"][0] != t.d["succ"][1]:
            for c, pol in flow.expand(f, tuple(t.ops[0]), t.d["succ"][0] == n):
                if c[0] != "v":
                    continue
                x = f.ins[c[1]]
                if x.op != "icmp" or x.d["pred"] not in ("eq", "ne"):
                    continue
                if {tuple(o[:2]) for o in x.ops} == {("a", 0), ("a", 1)} and self.kind == "assign":
                    if self.alias != ((x.d["pred"] == "eq") == pol):
                        return None
                    continue
                ta, tb = self.tok(x.ops[0], env), self.tok(x.ops[1], env)
                if ta is not None and tb is not None and ta != tb and ta in toks and tb in toks:
                    if (x.d["pred"] == "eq") == pol:
                        # the same object under two names: one of them stands for both
                        if ta[0] == "f":
                            ta, tb = tb, ta
                        env = {k: (ta if v == tb else v) for k, v in env.items()}
                        cells = {k: (ta if v == tb else v) for k, v in cells.items()}
                        del toks[tb]
                    continue
                for p, q in ((x.ops[0], x.ops[1]), (x.ops[1], x.ops[0])):
                    if q[0] == "null" or (q[0] == "c" and q[1] == 0):
                        k = self.tok(p, env)
                        if k is None or k not in toks:
                            continue
                        if (x.d["pred"] == "eq") == pol:
                            if toks[k] == M and k[0] in ("s", "o"):
                                return None
                            if toks[k] in (H, M):
                                toks[k] = N
                        elif toks[k] == N:
                            return None
                        elif toks[k] == H:
                            toks[k] = M
        if t.op == "switch" and n == t.d["default"] and n not in [d for _, d in t.d["cases"]]:
            names = self.enum_of(t.ops[0])
            if names and {v for _, v in names} <= {v for v, _ in t.d["cases"]}:
                return None         # every enumerator has its case
        # ---- loops left: what they released completely
        for lp in loops_of(f):
            if b in lp[1] and n not in lp[1]:
                for blk in lp[1]:
                    for i in f.bbs[blk]:
                        if i.op in ("call", "invoke"):
                            for o, fam, thru in releases(f, i):
                                s = strip(f, o)
                                if thru or s[0] != "v" or f.ins[s[1]].op != "load":
                                    continue
                                c = self.base(f.ins[s[1]].ops[0], env)
                                has = lambda c: c in elems or any(k[0] == "#" and k[1] == c for k in elems)
                                if c is None or not has(c):
                                    # the array's own pointer may be read inside the loop
                                    bs = strip(f, f.ins[s[1]].ops[0])
                                    if bs[0] == "v" and f.ins[bs[1]].op == "load":
                                        c = cells.get(self.addr(f.ins[bs[1]]))
                                if c is not None and has(c) and every_iteration(f, lp, i):
                                    for k in [k for k in elems if k[0] == "#" and k[1] == c]:
                                        del elems[k]
                                    elems[c] = "released"
        # ---- phis and values that are no longer needed
        new = {}
        for p in f.bbs[n]:
            if p.op != "phi":
                continue
            for pb, o in p.d["in"]:
                if pb == b:
                    if p.ty == "ptr":
                        k = self.tok(o, env)
                        if k is not None:
                            new[p.i] = k
                    break
        stale = {p.i for p in f.bbs[n] if p.op == "phi"}
        if stale:
            for a in [x for x in cells if ir.contains(x, lambda y: y[:1] == ("phi",) and y[1] in stale)]:
                t0 = cells.pop(a)
                if t0 is not None and toks.get(t0) in (H, M):
                    toks[t0] = E
        lv = self.live[n]
        env = {k: v for k, v in env.items() if isinstance(k, tuple) or (k in lv and not (f.ins[k].bb == n and f.ins[k].op != "phi" and False))}
        for p in f.bbs[n]:
            if p.op == "phi":
                env.pop(p.i, None)
        env.update(new)
        # parameters are only needed where they are still used
        env = {k: v for k, v in env.items() if not isinstance(k, tuple) or self.arg_live(k[1], n)}
        return self.gc(t, toks, env, cells, elems, jmp, n)

    def enum_of(self, o):
        f = self.f
        while o[0] == "v" and f.ins[o[1]].op in ("zext", "sext", "trunc", "freeze"):
            o = f.ins[o[1]].ops[0]
        t = None
        if o[0] == "a":
            dt = f.d.get("ditypes", [])
            t = dt[o[1] + 1] if o[1] + 1 < len(dt) else None
        elif o[0] == "v" and f.ins[o[1]].op == "load":
            k = slot(f, f.ins[o[1]])
            t = self.F.ftype.get(k[:2]) if k else None
        return self.p.enums.get(t or "", None)

    def arg_live(self, k, n):
        f = self.f
        c = f.__dict__.setdefault("_own_arg", {})
        if k not in c:
            blocks = set()
            for i in f.all():
                for o in (operands(i)):
                    q = o
                    if q[0] == "a" and q[1] == k:
                        if i.op == "phi":
                            blocks |= {pb for pb, x in i.d["in"] if x[0] == "a" and x[1] == k}
                        else:
                            blocks.add(i.bb)
                            # through its derived values
                            work = [i.i]
                            seen = set()
                            while work:
                                v = work.pop()
                                for u in f.users.get(v, ()):
                                    blocks.add(u.bb)
                                    if u.i not in seen and (u.op in CASTS or u.op in ("getelementptr", "icmp")):
                                        seen.add(u.i)
                                        work.append(u.i)
            # blocks from which a use can be reached
            live, work = set(blocks), list(blocks)
            while work:
                b = work.pop()
                for p in f.pred.get(b, ()):
                    if p not in live:
                        live.add(p)
                        work.append(p)
            c[k] = live
        return n in c[k]

    def finish(self, i, toks, env, cells, elems):
        f, F = self.f, self.F
        for t, s in toks.items():
            if t[0] == "j" and s == M:
                self.bad("leak", i, "codec session", "still open when the function returns")
        keep = {}
        for a, t in cells.items():
            if not self.mine(a):
                continue
            if t is None:
                continue
            if not (isinstance(a, tuple) and a[0] == "fld" and (a[2], a[3], 0) in F.owned):
                continue
            keep[a] = t
            if self.kind == "dtor":
                continue
            if toks.get(t) == R:
                self.bad("dangling", i, self.fieldname(a), "the field still points to what was released when the function returns")
            if toks.get(t) == U:
                self.bad("undef", i, self.fieldname(a), "not initialised on this path, the destructor releases it")
        refs = set(keep.values()) if self.kind != "dtor" else set()
        for t, s in list(toks.items()):
            if t[0] == "j":
                continue
            if t in refs:
                continue
            if s in (H, M):
                if self.kind == "dtor" and t[0] == "f" and t[1] != self.cls:
                    continue
                self.bad("leak", i, self.name(t), "still held when the function returns: neither released nor handed over")
        if self.kind in ("ctor", "copy"):
            for (c, n, l), fam in F.owned.items():
                if c == self.cls and l == 0 and F.dtor_releases(c, n):
                    if not any(isinstance(a, tuple) and a[0] == "fld" and a[2] == c and a[3] == n and self.mine(a) for a in cells):
                        self.bad("undef", i, "%s::%s" % (c, n), "not initialised on this path, the destructor releases it")
        if self.kind == "dtor":
            for (c, n, l), fam in F.owned.items():
                if c == self.cls and l == 0 and None not in fam:
                    if not any(isinstance(a, tuple) and a[0] == "fld" and a[2] == c and a[3] == n and self.mine(a) for a in cells):
                        self.bad("leak", i, "%s::%s" % (c, n), "the destructor does not release it on this path")

    def fieldname(self, a):
        return "%s::%s" % (a[2], a[3]) if a[0] == "fld" else str(a)
