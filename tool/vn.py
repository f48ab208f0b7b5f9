"""Path-sensitive value numbering over the SSA form: every acyclic path segment of a (flattened) function is walked once,
each instruction is given a hash-consed term, memory is a map from (object, byte offset) to terms, and branch outcomes
are kept as ordering / equality facts with transitive closure.  Nothing is executed and no solver is asked: conditions
are decided by lookup, constants and the closure only, anything else forks."""
import re
from collections import defaultdict
from ir import CASTS
from front import AnalysisError

MATH = re.compile(r"^(sqrtf?|fabsf?|floorf?|ceilf?|powf?|expf?|logf?|sinf?|cosf?|tanf?|a(sin|cos|tan)f?|atan2f?|fmodf?|fminf?|fmaxf?|"
                  r"std::(sqrt|abs|fabs|floor|ceil|pow|exp|log|sin|cos|tan|min|max|isnan|isinf)|log2f?|hypotf?|roundf?|lroundf?|cbrtf?|"
                  r"llvm\.(sqrt|fabs|floor|ceil|pow|exp|log|sin|cos|minnum|maxnum|fmuladd|copysign|is\.fpclass|smax|smin|umax|umin|abs|ctpop|cttz|ctlz)[.\w]*)(\(|$)")


class Terms:
    def __init__(self):
        self.tab, self.node = {}, []

    def mk(self, *n):
        r = self.tab.get(n)
        if r is None:
            r = self.tab[n] = len(self.node)
            self.node.append(n)
        return r

    def const(self, v):
        if isinstance(v, float) and v == v and abs(v) < 2**53 and v == int(v):
            v = int(v)
        return self.mk("c", v)

    def show(self, t, d=0):
        n = self.node[t]
        k = n[0]
        if k == "c":
            return "%.8g" % n[1] if isinstance(n[1], float) else str(n[1])
        if d > 7:
            return "..."
        if k == "ptr":
            return "&%s+%d%s" % (self.root(n[1], d), n[2], "".join("+%d*%s" % (s, self.show(x, d + 1)) for s, x in n[3]))
        if k == "mem":
            return "%s[%d%s]" % (self.root(n[1], d), n[2], "".join("+%d*%s" % (s, self.show(x, d + 1)) for s, x in n[3]))
        if k in ("fadd", "add"):
            return "(%s + %s)" % (self.show(n[1], d + 1), self.show(n[2], d + 1))
        if k in ("fsub", "sub"):
            return "(%s - %s)" % (self.show(n[1], d + 1), self.show(n[2], d + 1))
        if k in ("fmul", "mul"):
            return "%s*%s" % (self.show(n[1], d + 1), self.show(n[2], d + 1))
        if k == "call":
            return "%s(%s)" % (n[1].split("(")[0], ", ".join(self.show(x, d + 1) for x in n[2]))
        return "%s(%s)" % (k, ", ".join(self.show(x, d + 1) if isinstance(x, int) and not isinstance(x, bool) and k not in ("phi", "xv") else str(x) for x in n[1:]))

    def root(self, r, d=0):
        if r[0] == "arg":
            return "arg%d" % r[1]
        if r[0] == "val":
            return "*" + self.show(r[1], d + 1)
        return str(r[1])


class State:
    __slots__ = ("val", "mem", "ver", "facts", "ge", "events", "prev", "visits", "seq", "trail")

    def copy(self):
        s = State()
        s.val, s.facts = dict(self.val), dict(self.facts)
        s.mem = {r: dict(m) for r, m in self.mem.items()}
        s.ver, s.ge = dict(self.ver), {k: dict(v) for k, v in self.ge.items()}
        s.events, s.prev, s.visits, s.seq, s.trail = list(self.events), self.prev, dict(self.visits), self.seq, list(self.trail)
        return s


class Path:
    """one finished segment"""

    def __init__(self, vn, st, start, kind, dest, ret, ins):
        self.vn, self.st, self.start, self.kind, self.dest, self.ret, self.ins = vn, st, start, kind, dest, ret, ins
        self.facts, self.events = st.facts, st.events

    def holds(self, cond):
        return self.vn.decide(self.st, cond)

    def ge(self, a, b):
        """a is not below b on this path"""
        return self.vn.query_lt(self.st, a, b) is False

    def cell(self, root, off, size=4, vars=()):
        return self.vn.load(self.st, root, off, vars, size)

    def stored(self, root):
        """offsets of the object that were written on this path"""
        return {(o, v) for (o, v), c in self.st.mem.get(root, {}).items() if c[2]}

    def where(self):
        return self.ins.where() if self.ins is not None else self.vn.f.name


class VN:
    def __init__(self, f, cut=True, limit=20000, unroll=80, effects=None, init=None, clobber=None):
        """cut: stop at loop heads (segments); otherwise follow loops whose conditions the constants decide"""
        self.f, self.T, self.limit, self.unroll = f, Terms(), limit, unroll
        self.effects = effects          # callback(call ins, k-th operand) -> may the callee write through it
        self.init = init
        self.stable = lambda root: False    # roots whose contents the caller has shown not to change
        self.heads = set()
        for b in range(len(f.bbs)):
            for s in f.succ.get(b, ()):
                if s == b or b in f.reach(s) and self._dominates(s, b):
                    self.heads.add(s)
        self.cuts = set(self.heads) if cut else set()
        if cut == "auto":
            self.cuts = {h for h in self.heads if not self._counted(h)}
        self.through = set()            # heads of loops that are passed: what they change becomes unknown

    def _dominates(self, a, b):
        return a == b or a in self.f.dom().get(b, ())

    # ---- conditions: ("lt",a,b) / ("ult",a,b) / ("eq",a,b) / any other boolean term, with polarity
    def _counted(self, h):
        """a loop from a constant to a constant, in constant steps, without a loop inside"""
        f = self.f
        body, q = {h}, [b for b in range(len(f.bbs)) if h in f.succ.get(b, ()) and (b == h or self._dominates(h, b))]
        while q:
            b = q.pop()
            if b not in body:
                body.add(b)
                q += [x for x in range(len(f.bbs)) if b in f.succ.get(x, ())]
        if any(x in body for x in self.heads if x != h) or not body:
            return False
        for i in f.bbs[h]:
            if i.op != "phi":
                break
            out = [o for b, o in i.d["in"] if b not in body]
            back = [o for b, o in i.d["in"] if b in body]
            if any(o[0] != "c" for o in out) or len(back) != 1 or back[0][0] != "v":
                continue
            a = f.ins[back[0][1]]
            if a.op not in ("add", "sub") or not any(tuple(o) == ("v", i.i) for o in a.ops) or not any(o[0] == "c" for o in a.ops):
                continue
            names = {i.i, a.i}
            for b in body:
                for j in f.bbs[b]:
                    if j.op in CASTS and j.ops[0][0] == "v" and j.ops[0][1] in names:
                        names.add(j.i)
            for b in body:
                for j in f.bbs[b]:
                    if j.op == "icmp" and any(o[0] == "v" and o[1] in names for o in j.ops) and any(o[0] == "c" for o in j.ops) and any(s not in body for s in f.succ.get(b, ())):
                        return True
        return False

    def cond(self, t):
        """-> (base term, positive)"""
        n = self.T.node[t]
        pos = True
        while n[0] == "not":
            t, pos = n[1], not pos
            n = self.T.node[t]
        return t, pos

    def num(self, t):
        n = self.T.node[t]
        return n[1] if n[0] == "c" and not isinstance(n[1], str) else None

    def decide(self, st, t):
        t, pos = self.cond(t)
        n = self.T.node[t]
        r = None
        if n[0] == "c":
            r = bool(n[1])
        elif t in st.facts:
            r = st.facts[t]
        elif n[0] == "lt":
            r = self.query_lt(st, n[1], n[2])
        elif n[0] == "eq":
            a, b = self.num(n[1]), self.num(n[2])
            if n[1] == n[2]:
                r = True
            elif a is not None and b is not None:
                r = a == b
            elif self.query_lt(st, n[1], n[2]) or self.query_lt(st, n[2], n[1]):
                r = False
            else:
                x, y = self.T.node[n[1]], self.T.node[n[2]]
                if x[0] == "ptr" and n[2] == self.T.const(0) and x[1][0] in ("alloca", "g"):
                    r = False
                elif y[0] == "ptr" and n[1] == self.T.const(0) and y[1][0] in ("alloca", "g"):
                    r = False
        elif n[0] == "ult":
            a, b = self.num(n[1]), self.num(n[2])
            if n[1] == n[2]:
                r = False
            elif a is not None and b is not None and a >= 0 and b >= 0:
                r = a < b
        elif n[0] in ("and", "or"):
            a, b = self.decide(st, n[1]), self.decide(st, n[2])
            if n[0] == "and":
                r = False if a is False or b is False else True if a and b else None
            else:
                r = True if a or b else False if a is False and b is False else None
        elif n[0] == "isnan":
            m = self.T.node[n[1]]
            if m == ("c", "nan"):
                r = True
            elif m[0] == "c":
                r = False
        return None if r is None else r == pos

    def query_lt(self, st, a, b):
        """is a < b ?  True / False / None from the recorded orderings"""
        if "nan" in (self.T.node[a][1:2] + self.T.node[b][1:2]) and (self.T.node[a] == ("c", "nan") or self.T.node[b] == ("c", "nan")):
            return False
        if a == b:
            return False
        x, y = self.num(a), self.num(b)
        if x is not None and y is not None:
            return x < y
        if self.reaches(st, a, b) is not None:
            return False
        if self.reaches(st, b, a) == 1:
            return True
        return None

    def reaches(self, st, a, b):
        """a >= ... >= b: None when not known, 1 when some step is strict, else 0"""
        best = {a: 0}
        q = [a]
        nb = self.num(b)
        res = None
        consts = [k for k in st.ge if self.num(k) is not None]
        for v in st.ge.values():
            consts += [k for k in v if self.num(k) is not None]
        while q:
            x = q.pop()
            nx = self.num(x)
            succ = dict(st.ge.get(x, {}))
            if nx is not None:
                for k in consts:
                    if self.num(k) <= nx and k != x:
                        succ[k] = 1 if self.num(k) < nx else 0
                if nb is not None and nb <= nx:
                    succ[b] = 1 if nb < nx else 0
            for y, s in succ.items():
                s = max(s, best[x])
                if y not in best or s > best[y]:
                    best[y] = s
                    q.append(y)
        return best.get(b)

    def learn(self, st, t, v):
        t, pos = self.cond(t)
        v = v == pos
        n = self.T.node[t]
        st.facts[t] = v
        if n[0] == "lt":
            a, b = n[1], n[2]
            if v:
                st.ge.setdefault(b, {})[a] = 1
            else:
                st.ge.setdefault(a, {}).setdefault(b, 0)
        elif n[0] == "eq" and v:
            st.ge.setdefault(n[1], {}).setdefault(n[2], 0)
            st.ge.setdefault(n[2], {}).setdefault(n[1], 0)
        elif n[0] == "and" and v or n[0] == "or" and not v:
            self.learn(st, n[1], v)
            self.learn(st, n[2], v)

    def fcmp(self, p, a, b):
        T = self.T
        nan = T.node[a] == ("c", "nan") or T.node[b] == ("c", "nan")
        if nan:
            return T.const(1 if p[0] == "u" or p == "true" else 0)
        if p in ("ord", "uno"):
            x = T.mk("isnan", a if T.node[b][0] == "c" or a == b else T.mk("either", a, b))
            return x if p == "uno" else T.mk("not", x)
        q = p[1:]
        return {"lt": lambda: T.mk("lt", a, b), "gt": lambda: T.mk("lt", b, a),
                "le": lambda: T.mk("not", T.mk("lt", b, a)), "ge": lambda: T.mk("not", T.mk("lt", a, b)),
                "eq": lambda: T.mk("eq", *sorted((a, b))), "ne": lambda: T.mk("not", T.mk("eq", *sorted((a, b))))}[q]()

    def icmp(self, p, a, b):
        T = self.T
        if p == "eq":
            return self._beq(a, b)
        if p == "ne":
            return T.mk("not", self._beq(a, b))
        k = "lt" if p[0] == "s" or (self.num(a) or 0) >= 0 and (self.num(b) or 0) >= 0 and (self.num(a) is not None or self.num(b) is not None) and False else "lt" if p[0] == "s" else "ult"
        q = p[1:]
        return {"lt": lambda: T.mk(k, a, b), "gt": lambda: T.mk(k, b, a),
                "le": lambda: T.mk("not", T.mk(k, b, a)), "ge": lambda: T.mk("not", T.mk(k, a, b))}[q]()

    def _beq(self, a, b):
        T = self.T
        for x, y in ((a, b), (b, a)):
            if self.num(y) == 0 and self.boolean(x):
                return T.mk("not", x) if T.node[x][0] != "not" else T.node[x][1]
        return T.mk("eq", *sorted((a, b)))

    def boolean(self, t):
        return self.T.node[t][0] in ("lt", "ult", "eq", "not", "isnan", "and", "or")

    # ---- memory
    def load(self, st, root, off, vars, size):
        if self.stable(root):
            return self.T.mk("mem", root, off, vars, size, 0)
        m = st.mem.get(root, {})
        c = m.get((off, vars))
        if c and c[0] == size:
            return c[1]
        over = [(o, x) for (o, v), x in m.items() if v == vars and o < off + size and off < o + x[0]]
        ver = st.ver.get(root, 0)
        if not over:
            return self.T.mk("mem", root, off, vars, size, ver)
        # reassemble what a copy left in pieces
        over.sort(key=lambda p: p[0])
        o0, x0 = over[0]
        if all(self.num(x[1]) == 0 for _, x in over) and o0 <= off and sum(x[0] for _, x in over) >= size:
            return self.T.const(0)
        n = self.T.node[x0[1]]
        if n[0] == "mem":
            base = (n[1], n[2] - o0, n[3], n[5])
            if all(self.T.node[x[1]][0] == "mem" and (self.T.node[x[1]][1], self.T.node[x[1]][2] - o, self.T.node[x[1]][3], self.T.node[x[1]][5]) == base
                   for o, x in over) and o0 <= off and over[-1][0] + over[-1][1][0] >= off + size:
                return self.T.mk("mem", n[1], n[2] + off - o0, n[3], size, n[5])
        st.seq += 1
        return self.T.mk("piece", st.seq)

    def store(self, st, root, off, vars, size, t, touched=True):
        m = st.mem.setdefault(root, {})
        for (o, v) in list(m):
            if v != vars or (o < off + size and off < o + m[(o, v)][0]):
                if v == vars and o == off and m[(o, v)][0] == size:
                    continue
                if v != vars and not vars and root[0] == "alloca" and False:
                    continue
                if v != vars:
                    st.ver[root] = st.ver.get(root, 0) + 1
                del m[(o, v)]
        m[(off, vars)] = (size, t, touched)

    def clobber(self, st, root):
        st.mem.pop(root, None)
        st.seq += 1
        st.ver[root] = st.ver.get(root, 0) + 1

    def ptr(self, t):
        """(root, off, vars) of an address term"""
        n = self.T.node[t]
        if n[0] == "ptr":
            return n[1], n[2], n[3]
        return ("val", t), 0, ()

    def gep(self, st, base, d):
        root, off, vs = self.ptr(base)
        if "off" not in d:
            st.seq += 1
            return self.T.mk("opaque", st.seq)
        off += d["off"]
        acc = dict((x, s) for s, x in vs)
        for s, o in d.get("voff", ()):
            t = self.op(st, o)
            k, rest = self.lin(t)
            off += s * k
            for x, c in rest.items():
                acc[x] = acc.get(x, 0) + s * c
        vs = tuple(sorted((s, x) for x, s in acc.items() if s))
        return self.T.mk("ptr", root, off, vs)

    def lin(self, t, d=0):
        """integer term -> (constant, {term: coefficient})"""
        n = self.T.node[t]
        if n[0] == "c" and isinstance(n[1], int):
            return n[1], {}
        if n[0] in ("add", "sub") and d < 12:
            (k, p), (l, q) = self.lin(n[1], d + 1), self.lin(n[2], d + 1)
            s = 1 if n[0] == "add" else -1
            r = dict(p)
            for x, c in q.items():
                r[x] = r.get(x, 0) + s * c
                if not r[x]:
                    del r[x]
            return k + s * l, r
        if n[0] in ("mul", "shl") and d < 12:
            for u, w in ((n[1], n[2]), (n[2], n[1])):
                c = self.num(w)
                if isinstance(c, int) and (n[0] == "mul" or w == n[2]):
                    c = c if n[0] == "mul" else 1 << c
                    k, p = self.lin(u, d + 1)
                    return k * c, {x: y * c for x, y in p.items()}
        return 0, {t: 1}

    def split(self, t):
        """integer term -> (constant part, rest)"""
        n = self.T.node[t]
        if n[0] == "c" and isinstance(n[1], int):
            return n[1], None
        if n[0] == "add" and self.num(n[2]) is not None:
            k, r = self.split(n[1])
            return k + self.num(n[2]), r
        return 0, t

    # ---- instructions
    def op(self, st, o):
        T = self.T
        k = o[0]
        if k == "v":
            if o[1] not in st.val:
                raise AnalysisError("value %%%d used before its definition in %s" % (o[1], self.f.name))
            return st.val[o[1]]
        if k == "c":
            return T.const(o[1])
        if k == "d":
            return T.mk("c", o[1]) if isinstance(o[1], str) else T.const(float(o[1]))
        if k == "null":
            return T.const(0)
        if k == "a":
            if self.f.d["args"][o[1]]["ty"] == "ptr":
                return T.mk("ptr", ("arg", o[1]), 0, ())
            return T.mk("in", o[1])
        if k == "g":
            return T.mk("ptr", ("g", o[2]), 0, ())
        if k == "fn":
            return T.mk("fn", o[2])
        if k == "cegep":
            b = self.op(st, o[1])
            return self.gep(st, b, o[2])
        if k in ("undef", "?"):
            st.seq += 1
            return T.mk("undef", st.seq)
        if k == "vec":
            return T.mk("vec", *[self.op(st, x) for x in o[1:]])
        if k == "zero":
            return T.const(0)
        st.seq += 1
        return T.mk("opaque", st.seq)

    def step(self, st, i):
        """-> term or None; may return ('fork', cond, ta, tb) for selects"""
        T, op = self.T, i.op
        if op in CASTS or op == "freeze":
            x = self.op(st, i.ops[0])
            if op in ("fptosi", "fptoui"):
                n = self.num(x)
                return T.const(int(n)) if n is not None else T.mk(op, x)
            if op == "trunc" and i.ty == "i1":
                n = self.num(x)
                return T.const(n & 1) if isinstance(n, int) else x
            if op in ("zext", "sext") and self.num(x) == -1 and i.ops[0][0] == "v" and self.f.ins[i.ops[0][1]].ty == "i1":
                return T.const(1)
            return x
        if op == "load":
            p = self.op(st, i.ops[0])
            root, off, vs = self.ptr(p)
            m = re.match(r"<(\d+) x (\w+)>", i.ty)
            st.events.append(("load", i, p))
            if m:
                k = int(m.group(1))
                es = i.d["sz"] // k
                return T.mk("vec", *[self.load(st, root, off + es * j, vs, es) for j in range(k)])
            return self.load(st, root, off, vs, i.d.get("sz", 8))
        if op == "store":
            v = self.op(st, i.ops[0])
            p = self.op(st, i.ops[1])
            root, off, vs = self.ptr(p)
            n = T.node[v]
            o0 = i.ops[0]
            ty = self.f.ins[o0[1]].ty if o0[0] == "v" else self.f.d["args"][o0[1]]["ty"] if o0[0] == "a" else ""
            m = re.match(r"<(\d+) x ", ty)
            if m and n[0] != "vec":
                v = T.mk("vec", *[T.mk("el", v, T.const(j)) for j in range(int(m.group(1)))])
                n = T.node[v]
            if n[0] == "vec":
                es = i.d["sz"] // (len(n) - 1)
                for j, x in enumerate(n[1:]):
                    self.store(st, root, off + es * j, vs, es, x)
            elif n[0] == "agg":
                self.clobber(st, root)
            else:
                self.store(st, root, off, vs, i.d.get("sz", 8), v)
            st.events.append(("store", i, p, v))
            return None
        if op == "getelementptr":
            return self.gep(st, self.op(st, i.ops[0]), i.d)
        if op == "alloca":
            return T.mk("ptr", ("alloca", i.i), 0, ())
        if op == "fcmp":
            return self.fcmp(i.d["pred"], self.op(st, i.ops[0]), self.op(st, i.ops[1]))
        if op == "icmp":
            return self.icmp(i.d["pred"], self.op(st, i.ops[0]), self.op(st, i.ops[1]))
        if op == "fneg":
            x = self.op(st, i.ops[0])
            n = self.num(x)
            return T.const(-n) if n is not None else T.mk("fneg", x)
        if op in ("fadd", "fsub", "fmul", "fdiv", "add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem", "frem"):
            a, b = self.op(st, i.ops[0]), self.op(st, i.ops[1])
            return self.binary(op, a, b, i.ty)
        if op == "select":
            c = self.op(st, i.ops[0])
            r = self.decide(st, c)
            if r is None:
                return ("fork", c)
            return self.op(st, i.ops[1] if r else i.ops[2])
        if op == "insertelement":
            v, x, k = (self.op(st, o) for o in i.ops)
            n = T.node[v]
            w = int(re.match(r"<(\d+)", i.ty).group(1))
            l = list(n[1:]) if n[0] == "vec" else [v] * w
            if self.num(k) is None:
                st.seq += 1
                return T.mk("opaque", st.seq)
            l[self.num(k)] = x
            return T.mk("vec", *l)
        if op == "extractelement":
            v, k = self.op(st, i.ops[0]), self.op(st, i.ops[1])
            n = T.node[v]
            if n[0] == "vec" and self.num(k) is not None:
                return n[1 + self.num(k)]
            return T.mk("el", v, k)
        if op == "insertvalue":
            v, x = self.op(st, i.ops[0]), self.op(st, i.ops[1])
            n = T.node[v]
            d = dict(n[1]) if n[0] == "agg" else {}
            d[tuple(i.d.get("idx", ()))] = x
            return T.mk("agg", tuple(sorted(d.items())))
        if op == "extractvalue":
            v = self.op(st, i.ops[0])
            n = T.node[v]
            k = tuple(i.d.get("idx", ()))
            if n[0] == "agg" and k in dict(n[1]):
                return dict(n[1])[k]
            return T.mk("xv", v, k)
        if op in ("call", "invoke"):
            return self.call(st, i)
        st.seq += 1
        return T.mk("opaque", st.seq)

    def binary(self, op, a, b, ty):
        T = self.T
        x, y = self.num(a), self.num(b)
        if ty == "i1" or self.boolean(a) and self.boolean(b):
            if op == "xor":
                if y in (-1, 1):
                    return T.node[a][1] if T.node[a][0] == "not" else T.mk("not", a)
                if x in (-1, 1):
                    return T.node[b][1] if T.node[b][0] == "not" else T.mk("not", b)
            if op in ("and", "or"):
                for u, w, z in ((a, b, y), (b, a, x)):
                    if z is not None:
                        return (u if z else T.const(0)) if op == "and" else (T.const(1) if z else u)
                return T.mk(op, *sorted((a, b)))
        if isinstance(x, int) and isinstance(y, int) and op in ("add", "sub", "mul", "and", "or", "xor", "shl"):
            return T.const({"add": x + y, "sub": x - y, "mul": x * y, "and": x & y, "or": x | y, "xor": x ^ y, "shl": x << y if 0 <= y < 64 else 0}[op])
        if x is not None and y is not None and op in ("fadd", "fsub", "fmul", "fdiv") and not (op == "fdiv" and y == 0):
            r = {"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y}[op]()
            return T.const(float(r))
        if op == "sub" and isinstance(y, int):
            op, b, y = "add", T.const(-y), -y
        if op == "add":
            if isinstance(x, int) and y is None:
                a, b, x, y = b, a, y, x
            if isinstance(y, int):
                k, r = self.split(a)
                k += y
                return T.const(k) if r is None else r if k == 0 else T.mk("add", r, T.const(k))
        if op in ("add", "mul", "fadd", "fmul", "and", "or", "xor") and b < a:
            a, b = b, a
        if op in ("fmul", "fadd") and ty == "float" or ty == "double":
            pass
        return T.mk(op, a, b)

    def call(self, st, i):
        T = self.T
        name = i.callee or ("*" if "virt" not in i.d else i.d["virt"]["targets"][0][0] if i.d["virt"]["targets"] else "*")
        args = [self.op(st, o) for o in i.ops]
        base = name.split(".")[1] if name.startswith("llvm.") else name
        if base in ("lifetime", "assume", "dbg", "type", "donothing", "stacksave", "stackrestore") or name.startswith("llvm.type"):
            return T.const(1) if i.ty == "i1" else T.const(0)
        if base in ("memcpy", "memmove") or name in ("memcpy", "memmove"):
            n = self.num(args[2])
            self.copy(st, args[0], args[1], n)
            st.events.append(("store", i, args[0], None))
            return args[0] if i.ty == "ptr" else None
        if base == "memset" or name == "memset":
            root, off, vs = self.ptr(args[0])
            n = self.num(args[2])
            if n is None or n % 4 or self.num(args[1]) != 0 or n > 4096:
                self.clobber(st, root)
            else:
                for k in range(0, n, 4):
                    self.store(st, root, off + k, vs, 4, T.const(0))
            st.events.append(("store", i, args[0], None))
            return args[0] if i.ty == "ptr" else None
        if base == "is" and "fpclass" in name:
            k = self.num(args[1])
            x = T.mk("isnan", args[0]) if k == 3 else T.mk("fpclass", args[0], args[1])
            return x
        m = MATH.match(name)
        if m:
            return T.mk("call", m.group(1).replace("std::", "").split(".")[1] if name.startswith("llvm.") else m.group(1).replace("std::", ""), tuple(args))
        st.seq += 1
        t = T.mk("call", name, tuple(args), st.seq)
        st.events.append(("call", i, name, tuple(args), t))
        for k, a in enumerate(args):
            n = T.node[a]
            if n[0] == "ptr" and (self.effects is None or self.effects(i, k)):
                self.clobber(st, n[1])
                st.events.append(("clobber", i, a))
            elif n[0] in ("mem", "phi", "xv") and i.ops[k][0] == "v" and self.f.ins[i.ops[k][1]].ty == "ptr" and (self.effects is None or self.effects(i, k)):
                self.clobber(st, ("val", a))
                st.events.append(("clobber", i, a))
        return None if i.ty == "void" else t

    def copy(self, st, dst, src, n):
        dr, do, dv = self.ptr(dst)
        sr, so, sv = self.ptr(src)
        if n is None or n > 4096:
            self.clobber(st, dr)
            return
        cells, k = [], 0
        m = st.mem.get(sr, {})
        while k < n:
            c = m.get((so + k, sv))
            if c and c[0] <= n - k:
                cells.append((k, c[0], c[1]))
                k += c[0]
                continue
            s = min(4 - (so + k) % 4, n - k)
            s = 4 if s == 4 else 1
            cells.append((k, s, self.load(st, sr, so + k, sv, s)))
            k += s
        for k, s, t in cells:
            self.store(st, dr, do + k, dv, s, t)

    # ---- enumeration
    def fresh(self):
        s = State()
        s.val, s.mem, s.ver, s.facts, s.ge, s.events, s.prev, s.visits, s.seq, s.trail = {}, {}, {}, {}, {}, [], None, {}, 0, []
        return s

    def segments(self, starts=None):
        """all paths between cut points (entry, loop heads) and returns"""
        f = self.f
        out = []
        starts = starts if starts is not None else [0] + sorted(self.cuts - self.through)
        for s in dict.fromkeys(starts):
            st = self.fresh()
            if s != 0:
                self.havoc(st, s)
            if self.init:
                self.init(self, st, s)
            q = [(st, s, 0)]
            while q:
                st, b, pos = q.pop()
                self.walk(st, b, pos, s, q, out)
                if len(out) > self.limit or len(q) > self.limit:
                    raise AnalysisError("too many paths through %s" % f.name)
        return out

    def body(self, h):
        """the blocks of the loop"""
        f = self.f
        body, q = {h}, [b for b in range(len(f.bbs)) if h in f.succ.get(b, ()) and (b == h or self._dominates(h, b))]
        while q:
            b = q.pop()
            if b not in body:
                body.add(b)
                q += [x for x in range(len(f.bbs)) if b in f.succ.get(x, ())]
        return body

    def fills(self):
        """inner loops that only fill memory: they can be passed over"""
        out = set()
        for h in self.heads:
            body = self.body(h)
            if not any(h in self.body(g) for g in self.heads if g != h) or any(g in body for g in self.heads if g != h):
                continue
            const = lambda c: c.replace(" (.irclone)", "").endswith(" const") or c.startswith(("llvm.dbg", "llvm.type.test", "llvm.assume", "llvm.lifetime"))
            if all(i.op not in ("call", "invoke") or (all(const(x[0]) for x in i.d["virt"]["targets"]) if "virt" in i.d else const(i.callee or "")) for b in body for i in self.f.bbs[b]):
                out.add(h)
        return out

    def pass_loop(self, st, h, phis):
        """the first arrival at a loop that is passed; False when it is not the first"""
        if h in st.visits:
            return False
        body = self.body(h)
        for k in phis:
            st.val[k] = self.T.mk("phi", h, k)

        def base(o, d=0):
            i = self.f.ins[o[1]] if o[0] == "v" else None
            if i is not None and i.bb in body and d < 20:
                if i.op == "getelementptr" or i.op in CASTS:
                    return base(i.ops[0], d + 1)
                if i.op == "phi":
                    out = [x for pb, x in i.d["in"] if pb not in body]
                    return base(out[0], d + 1) if len(out) == 1 else None
                return None
            return self.ptr(self.op(st, o))[0]
        for b in body:
            for i in self.f.bbs[b]:
                if i.op == "store":
                    r = base(tuple(i.ops[1]))
                    x = i.ops[0]
                    st.events.append(("fill", i, r, self.op(st, x) if x[0] == "c" else None))
                    for y in ([r] if r is not None else [y for y in set(st.mem) | {("arg", k) for k in range(8)} if y[0] != "alloca"]):
                        self.clobber(st, y)
        return True

    def havoc(self, st, b):
        """values defined before a loop head are symbols in segments starting there; pure ones keep their meaning"""
        f, T = self.f, self.T
        body = f.reach(b) | {b}
        order = [i for bb in self.rpo() for i in f.bbs[bb]]
        for i in order:
            if i.bb in body and not (i.bb != b and self._dominates(i.bb, b)) and i.bb != b and self._inloop(i.bb, b):
                continue
            if i.i in st.val:
                continue
            if i.bb == b and i.op != "phi":
                continue
            try:
                if i.op == "phi":
                    st.val[i.i] = T.mk("phi", i.bb, i.i)
                elif i.op in ("alloca", "getelementptr") or i.op in CASTS or i.op in ("fcmp", "icmp", "fneg", "fadd", "fsub", "fmul", "fdiv", "add", "sub", "mul",
                                                                                      "and", "or", "xor", "shl", "lshr", "ashr",
                                                                                      "extractelement", "insertelement", "extractvalue", "insertvalue"):
                    st.val[i.i] = self.step(st, i)
                elif i.op == "load" and not i.ty.startswith("<") and self.stable(self.ptr(self.op(st, i.ops[0]))[0]):
                    root, off, vs = self.ptr(self.op(st, i.ops[0]))
                    st.val[i.i] = T.mk("mem", root, off, vs, i.d.get("sz", 8), 0)
                elif i.op in ("br", "switch", "ret", "store", "unreachable"):
                    pass
                else:
                    st.val[i.i] = T.mk("pre", i.i)
            except AnalysisError:
                pass

    def _inloop(self, x, head):
        return head in self.f.reach(x) and x in self.f.reach(head)

    def rpo(self):
        seen, out = set(), []

        def go(b):
            stack = [(b, iter(self.f.succ.get(b, ())))]
            seen.add(b)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.f.succ.get(s, ()))))
                        break
                else:
                    out.append(x)
                    stack.pop()
        go(0)
        return out[::-1]

    def enter(self, st, pred, b):
        """phi values on the edge pred -> b"""
        new = {}
        for i in self.f.bbs[b]:
            if i.op != "phi":
                break
            for pb, o in i.d["in"]:
                if pb == pred:
                    new[i.i] = self.op(st, o)
                    break
        return new

    def walk(self, st, b, pos, start, q, out):
        f = self.f
        first = pos == 0 and st.prev is None
        while True:
            if not pos and not first:
                st.visits[b] = st.visits.get(b, 0) + 1
                if st.visits[b] > self.unroll:
                    raise AnalysisError("loop of %s is not decided by constants" % f.name)
            if not pos:
                st.trail.append(b)
            first = False
            ins = f.bbs[b]
            k = pos
            pos = 0
            nxt = None
            while k < len(ins):
                i = ins[k]
                k += 1
                if i.op == "phi":
                    continue
                if i.op == "br":
                    succ = i.d.get("succ") or f.succ[b]
                    if not i.ops or len(set(succ)) == 1:
                        nxt = [(succ[0], None)]
                    else:
                        c = self.op(st, i.ops[0])
                        r = self.decide(st, c)
                        nxt = [(succ[0], (c, True)), (succ[1], (c, False))] if r is None else [(succ[0] if r else succ[1], None)]
                    break
                if i.op == "switch":
                    v = self.op(st, i.ops[0])
                    nxt = self.switch(st, i, v, b)
                    break
                if i.op == "ret":
                    out.append(Path(self, st, start, "ret", None, self.op(st, i.ops[0]) if i.ops else None, i))
                    return
                if i.op == "unreachable":
                    out.append(Path(self, st, start, "end", None, None, i))
                    return
                t = self.step(st, i)
                if isinstance(t, tuple) and t and t[0] == "fork":
                    o = st.copy()
                    self.learn(o, t[1], False)
                    q.append((o, b, k - 1))
                    self.learn(st, t[1], True)
                    k -= 1
                    continue
                if t is not None:
                    st.val[i.i] = t
                if i.op == "invoke":
                    nxt = [(f.succ[b][0], None)]
                    break
                if i.d.get("noreturn"):
                    out.append(Path(self, st, start, "end", None, None, i))
                    return
            if not nxt:
                out.append(Path(self, st, start, "end", None, None, ins[-1]))
                return
            for s, fact in nxt[1:]:
                o = st.copy()
                self.learn(o, *fact)
                self.follow(o, b, s, start, q, out)
            s, fact = nxt[0]
            if fact:
                self.learn(st, *fact)
            phis = self.enter(st, b, s)
            if s in self.through:
                if not self.pass_loop(st, s, phis):
                    return
                st.prev = b
                b = s
                continue
            if s in self.cuts:
                st.val.update({})
                p = Path(self, st, start, "cut", s, None, ins[-1])
                p.phis = phis
                out.append(p)
                return
            st.val.update(phis)
            st.prev = b
            b = s

    def follow(self, st, b, s, start, q, out):
        phis = self.enter(st, b, s)
        if s in self.through:
            if self.pass_loop(st, s, phis):
                st.prev = b
                q.append((st, s, 0))
            return
        if s in self.cuts:
            p = Path(self, st, start, "cut", s, None, self.f.bbs[b][-1])
            p.phis = phis
            out.append(p)
            return
        st.val.update(phis)
        st.prev = b
        q.append((st, s, 0))

    def switch(self, st, i, v, b):
        n = self.num(v)
        cases = i.d.get("cases", [])
        succ = self.f.succ[b]
        default = i.d.get("default", succ[0])
        if n is not None:
            for c, s in cases:
                if c == n:
                    return [(s, None)]
            return [(default, None)]
        res = []
        for c, s in cases:
            e = self._beq(v, self.T.const(c))
            r = self.decide(st, e)
            if r is not False:
                res.append((s, (e, True)))
        neg = [self._beq(v, self.T.const(c)) for c, s in cases]
        st2 = None
        acc = None
        for e in neg:
            x = self.T.node[e][1] if self.T.node[e][0] == "not" else self.T.mk("not", e)
            acc = x if acc is None else self.T.mk("and", *sorted((acc, x)))
        if acc is not None and self.decide(st, acc) is not False:
            res.append((default, (acc, True)))
        return res or [(default, None)]
