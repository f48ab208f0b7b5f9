"""Path-sensitive finite dataflow ("property simulation"): the abstract state is a
rule-supplied typestate plus the branch outcomes / constant values that are known
on the current path.  States are joined when equal; no solver, no execution."""
from collections import deque, defaultdict
from ir import CASTS, operands

LIMIT = 6000


def value(f, o, facts):
    """constant (int) of an operand under the known facts, or None"""
    if o[0] == "c":
        return o[1]
    if o[0] == "null":
        return 0
    if o[0] != "v":
        return None
    if o[1] in facts:
        return facts[o[1]]
    i = f.ins[o[1]]
    op = i.op
    if op in ("zext", "trunc", "sext", "bitcast", "freeze"):
        v = value(f, i.ops[0], facts)
        if v is None:
            return None
        if op == "trunc" and i.ty == "i1":
            return -(v & 1)
        if op == "zext":
            src = f.ins[i.ops[0][1]].ty if i.ops[0][0] == "v" else ""
            if src == "i1":
                return v & 1
            if src == "i8":
                return v & 255
        return v
    if op in ("and", "or", "xor") and len(i.ops) == 2:
        a, b = value(f, i.ops[0], facts), value(f, i.ops[1], facts)
        if op == "and" and (a == 0 or b == 0):
            return 0
        if op == "or" and i.ty == "i1" and (a in (1, -1) or b in (1, -1)):
            return -1
        if a is None or b is None:
            return None
        return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
    if op == "icmp":
        a, b = value(f, i.ops[0], facts), value(f, i.ops[1], facts)
        if a is None or b is None:
            return None
        p = i.d["pred"]
        if p[0] == "u" and (a < 0 or b < 0):
            return None
        r = {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b,
             "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[p]
        return -1 if r else 0
    if op == "select":
        c = value(f, i.ops[0], facts)
        if c is None:
            a, b = value(f, i.ops[1], facts), value(f, i.ops[2], facts)
            return a if a == b else None
        return value(f, i.ops[1] if c else i.ops[2], facts)
    if op in ("add", "sub", "mul"):
        a, b = value(f, i.ops[0], facts), value(f, i.ops[1], facts)
        if a is None or b is None:
            return None
        return a + b if op == "add" else a - b if op == "sub" else a * b
    return None


def learn(f, o, val, facts, depth=0):
    """record that operand o has value val (0 / -1 for i1) and what follows from it"""
    if o[0] != "v" or depth > 12:
        return
    i = f.ins[o[1]]
    if i.ty == "i1":
        val = -1 if val else 0
    facts[o[1]] = val
    if i.op in ("zext", "sext", "freeze"):
        learn(f, i.ops[0], val, facts, depth + 1)
    elif i.op == "trunc" and i.ty == "i1":
        s = i.ops[0]
        if s[0] == "v" and f.ins[s[1]].op in ("zext", "sext"):
            learn(f, f.ins[s[1]].ops[0], val, facts, depth + 1)
        elif s[0] == "v":
            # stored booleans are 0/1
            facts.setdefault(s[1], val & 1)
    elif i.op == "xor" and i.ty == "i1":
        a, b = i.ops
        if b[0] == "c":
            learn(f, a, ~val if b[1] else val, facts, depth + 1)
    elif i.op == "and" and i.ty == "i1" and val:
        for x in i.ops:
            learn(f, x, -1, facts, depth + 1)
    elif i.op == "or" and i.ty == "i1" and not val:
        for x in i.ops:
            learn(f, x, 0, facts, depth + 1)
    elif i.op == "select" and i.ty == "i1":
        c, a, b = i.ops
        if b[0] == "c" and b[1] == 0 and val:
            learn(f, c, -1, facts, depth + 1)
            learn(f, a, -1, facts, depth + 1)
        elif a[0] == "c" and a[1] != 0 and not val:
            learn(f, c, 0, facts, depth + 1)
            learn(f, b, 0, facts, depth + 1)
    elif i.op == "icmp":
        a, b = i.ops
        p = i.d["pred"]
        if b[0] in ("c", "null") and a[0] == "v":
            k = 0 if b[0] == "null" else b[1]
            if (p == "eq" and val) or (p == "ne" and not val):
                learn(f, a, k, facts, depth + 1)
            elif k == 0 and ((p == "ne" and val) or (p == "eq" and not val)):
                if f.ins[a[1]].ty == "i1":
                    learn(f, a, -1, facts, depth + 1)
                elif f.ins[a[1]].op == "zext" and f.ins[a[1]].ops[0][0] == "v" and f.ins[f.ins[a[1]].ops[0][1]].ty == "i1":
                    learn(f, f.ins[a[1]].ops[0], -1, facts, depth + 1)


def _relevant(f):
    """SSA ids whose knowledge can matter later: phis with a constant input or an
    i1 type, and anything feeding a branch/switch/select/phi"""
    rel, q = set(), []
    for i in f.all():
        if i.op in ("br", "switch", "select", "ret") and i.ops:
            q += [o for o in i.ops if o[0] == "v"]
    while q:
        o = q.pop()
        if o[1] in rel:
            continue
        rel.add(o[1])
        i = f.ins[o[1]]
        if i.op in ("phi", "icmp", "xor", "and", "or", "select", "trunc", "zext", "sext", "freeze"):
            q += [x for x in operands(i) if x[0] == "v"]
    return rel


_LIVE = {}
_PURE = CASTS | {"freeze", "and", "or", "xor", "icmp", "fcmp", "select", "add", "sub", "mul"}


def live_values(f):
    """block -> ids whose value can still matter at its start, seen through the pure operations value() evaluates"""
    if id(f) in _LIVE and _LIVE[id(f)][0] is f:
        return _LIVE[id(f)][1]
    memo = {}

    def need(o):
        if o[0] != "v":
            return frozenset()
        if o[1] in memo:
            return memo[o[1]]
        memo[o[1]] = frozenset([o[1]])
        r = {o[1]}
        i = f.ins[o[1]]
        if i.op in _PURE:
            for x in i.ops:
                r |= need(x)
        memo[o[1]] = frozenset(r)
        return memo[o[1]]
    n = len(f.bbs)
    gen, defs, out = [set() for _ in range(n)], [set() for _ in range(n)], [set() for _ in range(n)]
    for b in range(n):
        for i in f.bbs[b]:
            defs[b].add(i.i)
            if i.op == "phi":
                for pb, o in i.d["in"]:
                    out[pb] |= need(o)
            else:
                for o in i.ops:
                    gen[b] |= need(o)
    live = [set() for _ in range(n)]
    q = deque(range(n))
    while q:
        b = q.popleft()
        o = set(out[b])
        for s in set(f.succ.get(b, ())):
            o |= live[s]
        # what is known about the parts of an expression is known before it is evaluated again
        new = (gen[b] | o) - defs[b]
        if new - live[b]:
            live[b] |= new
            q.extend(p for p in f.pred.get(b, ()))
    # values defined in the block (phis learnt on the edge) matter as well
    res = {b: live[b] | {i.i for i in f.bbs[b] if i.op == "phi"} for b in range(n)}
    _LIVE[id(f)] = (f, res)
    return res


def simulate(f, init, transfer, on_edge=None, start=0, limit=LIMIT, keep=None, prune=False):
    """transfer(ins, state, facts) -> iterable of states (or None to kill the path).
    on_edge(state, block, succ, facts) -> state or None.
    Returns {block: set of (state, facts) at entry}; transfer is called for every
    instruction in every state, so a rule reports from within it.
    prune drops what cannot matter later; only for rules that query operands of the current instruction."""
    rel = _relevant(f) if keep is None else keep
    seen = defaultdict(set)
    defs_in = {}
    for b in range(len(f.bbs)):
        defs_in[b] = {i.i for i in f.bbs[b]}
    q = deque()
    over = set()

    live = live_values(f) if prune else None

    def push(b, st, facts):
        fz = frozenset((k, v) for k, v in facts.items() if k in rel and (live is None or k in live[b]))
        if len(seen[b]) > limit:
            fz = frozenset()
            over.add(b)
        key = (st, fz)
        if key not in seen[b]:
            seen[b].add(key)
            q.append((b, st, dict(fz)))
    push(start, init, {})
    while q:
        b, st, facts = q.popleft()
        states = [(st, facts)]
        blk = f.bbs[b]
        for i in blk:
            if i.op == "phi":
                continue
            if i.op in ("br", "switch"):
                break
            nxt = []
            for s, fa in states:
                r = transfer(i, s, fa)
                if r is None:
                    continue
                for x in r:
                    if isinstance(x, tuple) and len(x) == 3 and x[0] == "learn":
                        fb = dict(fa)
                        learn(f, ["v", i.i], x[1], fb)
                        nxt.append((x[2], fb))
                    else:
                        nxt.append((x, fa))
            states = nxt
            if not states:
                break
        t = f.term(b)
        if not states or t is None or t.op not in ("br", "switch"):
            continue
        for s, fa in states:
            outs = []
            if t.op == "br":
                if not t.ops:
                    outs = [(t.d["succ"][0], fa)]
                else:
                    c = value(f, t.ops[0], fa)
                    tb, fb_ = t.d["succ"]
                    if c is None:
                        f1, f0 = dict(fa), dict(fa)
                        learn(f, t.ops[0], -1, f1)
                        learn(f, t.ops[0], 0, f0)
                        outs = [(tb, f1), (fb_, f0)]
                    else:
                        outs = [(tb if c else fb_, fa)]
            else:
                c = value(f, t.ops[0], fa)
                if c is None:
                    for v, d in t.d["cases"]:
                        f1 = dict(fa)
                        learn(f, t.ops[0], v, f1)
                        outs.append((d, f1))
                    outs.append((t.d["default"], fa))
                else:
                    d = [d for v, d in t.d["cases"] if v == c]
                    outs = [(d[0] if d else t.d["default"], fa)]
            for n, fx in outs:
                if f.pred.get(n) is None:
                    continue
                ns = s
                if on_edge is not None:
                    ns = on_edge(s, b, n, fx)
                    if ns is None:
                        continue
                # leaving/entering: facts about values redefined in n are stale
                fy = {}
                phis = [i for i in f.bbs[n] if i.op == "phi"]
                newphi = {}
                for p in phis:
                    for pb, o in p.d["in"]:
                        if pb == b:
                            v = value(f, o, fx)
                            if v is not None:
                                newphi[p.i] = v
                            break
                for k, v in fx.items():
                    if k not in defs_in[n]:
                        # values depending on re-entered loop bodies are killed when redefined
                        fy[k] = v
                fy.update(newphi)
                # kill facts about instructions computed from a phi that changes now
                if phis:
                    stale = _dependents(f, {p.i for p in phis})
                    for k in list(fy):
                        if k in stale and k not in newphi:
                            del fy[k]
                push(n, ns, fy)
    return seen


_depcache = {}


def _dependents(f, ids):
    key = (id(f), frozenset(ids))
    if key in _depcache:
        return _depcache[key]
    out, q = set(), list(ids)
    while q:
        x = q.pop()
        for u in f.users.get(x, ()):
            if u.i not in out and u.op != "phi":
                out.add(u.i)
                q.append(u.i)
    _depcache[key] = out
    return out


# ---------------------------------------------------------------- branch facts
def edge_facts(f, b):
    """set of (cond operand, polarity) that hold whenever block b executes"""
    cache = f.__dict__.setdefault("_ef", {})
    if b in cache:
        return cache[b]
    cache[b] = frozenset()
    out = set()
    for d in f.dom().get(b, ()):  # every dominator edge d<-p with single entry
        preds = [p for p in f.pred[d] if p in f.dom()]
        fwd = [p for p in preds if d not in f.dom().get(p, ())]   # ignore back edges
        if len(fwd) != 1:
            # all forward entries to a join may still agree on facts: intersect
            if len(fwd) > 1 and d != b:
                pass
            continue
        p = fwd[0]
        t = f.term(p)
        if t.op == "br" and t.ops:
            tb, fb_ = t.d["succ"]
            if tb != fb_:
                out.add((tuple(t.ops[0]), d == tb))
        elif t.op == "switch":
            vals = [v for v, x in t.d["cases"] if x == d]
            if d != t.d["default"] and len(vals) == 1:
                out.add((("sw", t.i, vals[0]), True))
    res = set()
    for c, pol in out:
        res |= expand(f, c, pol)
    cache[b] = frozenset(res)
    return cache[b]


def expand(f, c, pol, depth=0):
    """atomic facts implied by operand c having truth value pol"""
    res = {(c, pol)}
    if c[0] != "v" or depth > 10:
        return res
    i = f.ins[c[1]]
    if i.op == "xor" and i.ty == "i1" and i.ops[1][0] == "c" and i.ops[1][1]:
        res |= expand(f, tuple(i.ops[0]), not pol, depth + 1)
    elif i.op in ("trunc", "zext", "freeze"):
        if i.ops[0][0] == "v":
            res |= expand(f, tuple(i.ops[0]), pol, depth + 1)
    elif i.op == "icmp" and i.d["pred"] in ("eq", "ne") and i.ops[1][0] == "c" and i.ops[1][1] == 0 and i.ops[0][0] == "v":
        s = f.ins[i.ops[0][1]]
        if s.op in ("zext", "phi", "and", "or", "select") and s.ty in ("i1", "i8", "i32"):
            res |= expand(f, tuple(i.ops[0]), pol == (i.d["pred"] == "ne"), depth + 1)
    elif i.op == "and" and pol and i.ty in ("i1",):
        for x in i.ops:
            res |= expand(f, tuple(x), True, depth + 1)
    elif i.op == "or" and not pol:
        for x in i.ops:
            res |= expand(f, tuple(x), False, depth + 1)
    elif i.op == "select" and i.ty == "i1":
        cc, a, b = i.ops
        if b[0] == "c" and b[1] == 0 and pol:
            res |= expand(f, tuple(cc), True, depth + 1) | expand(f, tuple(a), True, depth + 1)
        elif a[0] == "c" and a[1] and not pol:
            res |= expand(f, tuple(cc), False, depth + 1) | expand(f, tuple(b), False, depth + 1)
    elif i.op == "phi":
        acc = None
        for pb, o in i.d["in"]:
            if o[0] == "c" and bool(o[1]) != pol:
                continue
            cur = set(edge_facts(f, pb))
            t = f.term(pb)
            if t.op == "br" and t.ops and t.d["succ"][0] != t.d["succ"][1]:
                cur |= expand(f, tuple(t.ops[0]), t.d["succ"][0] == i.bb, depth + 1)
            if o[0] == "v":
                cur |= expand(f, tuple(o), pol, depth + 1)
            acc = cur if acc is None else acc & cur
        if acc:
            res |= acc
    return res


def comparisons(f, facts):
    """(pred, lhs operand, rhs operand) with polarity folded in"""
    neg = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
           "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt",
           "oeq": "une", "une": "oeq", "one": "ueq", "ueq": "one", "olt": "uge", "oge": "ult", "ogt": "ule", "ole": "ugt",
           "ord": "uno", "uno": "ord"}
    fneg = {"ult": "oge", "ule": "ogt", "ugt": "ole", "uge": "olt"}
    out = []
    for c, pol in facts:
        if c[0] == "v":
            i = f.ins[c[1]]
            if i.op in ("icmp", "fcmp"):
                p = i.d["pred"]
                if not pol:
                    p = (fneg.get(p) if i.op == "fcmp" and p in fneg else neg.get(p)) or p
                out.append((p, i.ops[0], i.ops[1], i))
        elif c[0] == "sw":
            i = f.ins[c[1]]
            out.append(("eq", i.ops[0], ["c", c[2], 32], i))
    return out


# ---------------------------------------------------------------- linear forms
def linear(f, o, depth=0):
    """{symbol expr: coefficient} plus constant under key None; rounding casts to
    int are kept as symbols, widening casts dropped"""
    if o[0] in ("c",):
        return {None: o[1]}
    if o[0] == "d":
        try:
            return {None: float(o[1])}
        except ValueError:
            return {("d", o[1]): 1}
    if o[0] != "v" or depth > 40:
        return {norm(f, o): 1}
    i = f.ins[o[1]]
    if i.op in ("sext", "zext", "sitofp", "uitofp", "fpext", "fptrunc", "freeze"):
        return linear(f, i.ops[0], depth + 1)
    if i.op in ("add", "fadd", "sub", "fsub"):
        a, b = linear(f, i.ops[0], depth + 1), linear(f, i.ops[1], depth + 1)
        s = -1 if "sub" in i.op else 1
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v != 0 or k is None}
    if i.op == "fneg":
        return {k: -v for k, v in linear(f, i.ops[0], depth + 1).items()}
    if i.op in ("mul", "fmul"):
        a, b = linear(f, i.ops[0], depth + 1), linear(f, i.ops[1], depth + 1)
        for x, y in ((a, b), (b, a)):
            if set(x) <= {None}:
                k = x.get(None, 0)
                return {s: v * k for s, v in y.items()}
    if i.op == "shl" and i.ops[1][0] == "c":
        return {s: v * (1 << i.ops[1][1]) for s, v in linear(f, i.ops[0], depth + 1).items()}
    return {norm(f, o): 1}


def norm(f, o):
    return f.ex(o)


def sub(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) - v
    return {k: v for k, v in r.items() if v != 0}


# ---------------------------------------------------------------- bounds
def ladd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v != 0}


def const_of(a):
    """constant value of a linear form, or None"""
    a = {k: v for k, v in a.items() if v != 0}
    if not a:
        return 0
    if set(a) == {None}:
        return a[None]
    return None


def _round_src(f, o):
    """('ceil'|'floor'|'trunc', operand) when o is an integer made by rounding a float"""
    if o[0] != "v":
        return None
    i = f.ins[o[1]]
    if i.op in ("sext", "zext", "trunc", "freeze"):
        return _round_src(f, i.ops[0])
    if i.op in ("fptosi", "fptoui"):
        s = i.ops[0]
        while s[0] == "v" and f.ins[s[1]].op in ("fpext", "fptrunc"):
            s = f.ins[s[1]].ops[0]
        if s[0] == "v" and f.ins[s[1]].op == "call":
            c = f.ins[s[1]].callee or ""
            for n in ("ceil", "floor"):
                if c in (n, n + "f") or c.startswith("llvm.%s." % n):
                    return n, f.ins[s[1]].ops[0]
        return "trunc", s
    return None


def bounds(f, o, lower, depth=0, seen=()):
    """linear forms L with L <= o (lower) or o <= L (upper): each holds wherever o is defined"""
    out = [linear(f, o)]
    if o[0] != "v" or depth > 12 or o[1] in seen:
        return out
    i = f.ins[o[1]]
    seen = seen + (o[1],)
    if i.op in ("sext", "zext", "freeze", "fpext", "sitofp"):
        return bounds(f, i.ops[0], lower, depth + 1, seen)
    r = _round_src(f, o)
    if r:
        if (r[0] == "ceil" and lower) or (r[0] == "floor" and not lower):
            out += bounds(f, r[1], lower, depth + 1, seen)
        elif r[0] == "ceil" and not lower:
            out += [ladd(x, {None: 1}) for x in bounds(f, r[1], lower, depth + 1, seen)]
        elif r[0] == "floor" and lower:
            out += [ladd(x, {None: -1}) for x in bounds(f, r[1], lower, depth + 1, seen)]
        return out
    if i.op in ("add", "fadd") and depth < 6:
        for x in bounds(f, i.ops[0], lower, depth + 1, seen):
            for y in bounds(f, i.ops[1], lower, depth + 1, seen):
                out.append(ladd(x, y))
        return out
    if i.op in ("sub", "fsub") and depth < 6:
        for x in bounds(f, i.ops[0], lower, depth + 1, seen):
            for y in bounds(f, i.ops[1], not lower, depth + 1, seen):
                out.append(ladd(x, y, -1))
        return out
    if i.op in ("select", "phi"):
        ind = induction(f, i)
        if ind:
            init, step = ind
            if (step > 0) == lower:
                out += bounds(f, init, lower, depth + 1, seen)
            return out
        inc = []
        if i.op == "phi":
            for pb, v in i.d["in"]:
                facts = set(edge_facts(f, pb))
                t = f.term(pb)
                if t.op == "br" and t.ops and t.d["succ"][0] != t.d["succ"][1]:
                    facts |= expand(f, tuple(t.ops[0]), t.d["succ"][0] == i.bb)
                inc.append((v, comparisons(f, facts)))
        else:
            inc.append((i.ops[1], comparisons(f, expand(f, tuple(i.ops[0]), True))))
            inc.append((i.ops[2], comparisons(f, expand(f, tuple(i.ops[0]), False))))
        cands = [v for v, _ in inc]
        for t in cands:
            ok = True
            for v, cs in inc:
                if v == t or f.ex(v) == f.ex(t):
                    continue
                d = ladd(linear(f, v), linear(f, t), -1)   # v - t
                good = False
                for p, a, b, _ in cs:
                    e = ladd(linear(f, a), linear(f, b), -1)
                    if p[1:] in ("gt", "ge") or p in ("sgt", "sge"):
                        s = 1
                    elif p[1:] in ("lt", "le"):
                        s = -1
                    elif p in ("eq", "oeq"):
                        s = 0
                    else:
                        continue
                    e1 = e if s >= 0 else {k: -x for k, x in e.items()}   # e1 >= 0
                    want = d if lower else {k: -x for k, x in d.items()}
                    c = const_of(ladd(want, e1, -1))
                    if c is not None and c >= 0:
                        good = True
                if not good:
                    ok = False
                    break
            if ok:
                out += bounds(f, t, lower, depth + 1, seen)
    return out


def induction(f, phi):
    """(initial operand, constant step) of a loop counter phi"""
    if phi.op != "phi":
        return None
    init, step = None, None
    for pb, v in phi.d["in"]:
        lin = linear(f, v)
        me = f.ex(["v", phi.i])
        if me in lin and lin[me] == 1 and phi.bb in f.dom().get(pb, ()):
            rest = {k: x for k, x in lin.items() if k != me}
            c = const_of(rest)
            if c is None or c == 0:
                return None
            if step is not None and (step > 0) != (c > 0):
                return None
            step = c if step is None else min(step, c, key=abs)
        elif phi.bb in f.dom().get(pb, ()):
            return None
        else:
            if init is not None and f.ex(init) != f.ex(v):
                return None
            init = v
    if init is None or step is None:
        return None
    return init, step


def facts_ge(f, b, extra=()):
    """[(linear form E, strict)] with E >= 0 (or > 0) whenever block b runs"""
    out = []
    for p, a, b_, i in comparisons(f, set(edge_facts(f, b)) | set(extra)):
        e = ladd(linear(f, a), linear(f, b_), -1)
        isf = i.op == "fcmp"
        q = p[1:] if p not in ("eq", "ne") else p
        if q == "gt" or (q == "ge"):
            out.append((e, q == "gt", a, b_, isf))
        elif q in ("lt", "le"):
            out.append(({k: -v for k, v in e.items()}, q == "lt", b_, a, isf))
        elif p in ("eq", "oeq"):
            out.append((e, False, a, b_, isf))
            out.append(({k: -v for k, v in e.items()}, False, b_, a, isf))
    return out
