"""Failure-injection dataflow: each operation that can fail is followed along a success edge and a failure edge (with
the value it returns in that case), and the state records what failed.  Shared by the image writer and reader rules."""
import re
import flow, ir
from front import AnalysisError
from common import *

SETJMP = re.compile(r"^_?_?(sig)?setjmp$")
# codec routines that never raise an error through the handler
QUIET = re.compile(r"^(jpeg_std_error|jpeg_destroy\w*|jpeg_abort\w*|png_create_(read|write)_struct(_2)?|png_create_info_struct|"
                   r"png_destroy_\w+|png_set_longjmp_fn|png_sig_cmp|png_get_libpng_ver|png_get_error_ptr|png_get_io_ptr|"
                   r"png_init_io|png_get_(image_width|image_height|bit_depth|color_type|valid|channels|rowbytes))$")
CODEC = re.compile(r"^(jpeg|png)_\w+$")


def cname(i):
    c = i.callee or ""
    return re.sub(r"^(__isoc99_|__isoc23_|_IO_)", "", c)


def base(f, o):
    """root operand of a pointer, looking through casts and address steps only"""
    while o[0] == "v":
        i = f.ins[o[1]]
        if i.op in ("getelementptr",) or i.op in ir.CASTS or i.op == "freeze":
            o = i.ops[0]
        else:
            break
    return tuple(o[:2]) if o[0] in ("v", "a") else tuple(str(x) for x in o[:2])


def strip(f, o):
    while o[0] == "v" and (f.ins[o[1]].op in ir.CASTS or f.ins[o[1]].op == "freeze"):
        o = f.ins[o[1]].ops[0]
    return o


def flags(f):
    """branch-relevant values without loop counters: their constants would only unroll loops"""
    rel = flow._relevant(f)
    out = set(rel)
    for x in rel:
        if f.ins[x].op != "phi":
            continue
        seen, q = set(), [(x, False)]
        while q:
            v, arith = q.pop()
            for o in ir.operands(f.ins[v]):
                if o[0] != "v":
                    continue
                i = f.ins[o[1]]
                ar = arith or i.op in ("add", "sub", "mul", "shl")
                if o[1] == x and (arith or ar):
                    out.discard(x)
                    q = []
                    break
                if (o[1], ar) not in seen and (i.op in ("phi", "add", "sub", "mul", "shl", "select") or i.op in ir.CASTS):
                    seen.add((o[1], ar))
                    q.append((o[1], ar))
    return out


class Failures:
    """the fallible operations of one flattened function.

    state: (failed, armed, dirty, short, known)
      failed  None or a text naming what failed
      armed   a setjmp whose zero return the path has passed
      dirty   handles with output not yet known to be stored
      short   values that are smaller than they should be because of the failure
      known   memory that has been given a value
    """

    def __init__(self, prog, f, ctx, extra=None, write=True):
        self.prog, self.f, self.ctx, self.write = prog, f, ctx, write
        self.extra = extra or {}       # link name -> (failing values, succeeding values)
        self.events = {}               # (rule, instance) -> (ins, detail)
        self.rets = set()              # (failed, value)
        self.ops = {}                  # fallible operation -> ins
        self.seen_short = {}
        self.handler = self._handler()

    # ---- error handlers installed for libjpeg
    def _handler(self):
        """functions that always leave through longjmp"""
        out = set()
        for l, g in self.prog.all.items():
            if g.rets():
                continue
            if any(re.match(r"^_?_?(sig)?longjmp$", cname(i)) for i in g.calls()):
                out.add(l)
        return out

    def event(self, rule, i, detail):
        self.events.setdefault((rule, "%s:%s" % (self.f.scoped, cname(i) or i.op)), (i, detail))

    # ---- what an operation returns when it fails: list of outcomes, None when it is not fallible
    def outcomes(self, i, st):
        """[(ok?, learned value or None, short?, dirties, cleans)]"""
        f, c = self.f, cname(i)
        failed, armed, dirty, short, known = st
        l = i.d.get("link")
        if l in self.extra:
            bad, good = self.extra[l]
            return [(False, v, False, (), ()) for v in bad] + [(True, v, False, (), ()) for v in good]
        if c in ("fopen", "fdopen", "freopen", "TIFFOpen", "png_create_read_struct", "png_create_write_struct",
                 "png_create_info_struct"):
            return [(False, 0, False, (), ()), (True, 1, False, (), ())]
        if c in ("fwrite", "fread"):
            n = i.ops[2]
            k = flow.value(f, n, {})
            h = base(f, i.ops[3])
            d = (h,) if c == "fwrite" else ()
            return [(False, 0 if k == 1 else None, True, d, ()), (True, k, False, d, ())]
        if c in ("fprintf", "vfprintf", "fputs", "fputc", "putc"):
            h = base(f, i.ops[0] if "printf" in c else i.ops[1])
            return [(False, -1, True, (h,), ()), (True, None, False, (h,), ())]
        if c in ("fscanf", "vfscanf", "fgetc", "getc"):
            return [(False, -1 if c[-1] == "c" else None, True, (), ()), (True, None if c[-1] == "c" else self.conversions(i), False, (), ())]
        if c == "sscanf":
            return [(False, None, True, (), ()), (True, self.conversions(i), False, (), ())]
        if c == "fgets":
            return [(False, 0, False, (), ()), (True, 1, False, (), ())]
        if c == "fseek" or c == "fseeko":
            return None
        if c == "fflush":
            h = base(f, i.ops[0])
            return [(False, -1, True, (), ()), (True, 0, False, (), (h,))]
        if c == "fclose":
            h = base(f, i.ops[0])
            if h in dirty:
                return [(False, -1, True, (), (h,)), (True, 0, False, (), (h,))]
            return None
        if c in ("TIFFWriteScanline", "TIFFWriteEncodedStrip", "TIFFWriteRawStrip", "TIFFWriteTile", "TIFFWriteEncodedTile"):
            h = base(f, i.ops[0])
            return [(False, -1, True, (h,), ()), (True, 1, False, (h,), ())]
        if c in ("TIFFFlush", "TIFFWriteDirectory", "TIFFFlushData"):
            h = base(f, i.ops[0])
            return [(False, 0, True, (), (h,)), (True, 1, False, (), (h,) if c != "TIFFFlushData" else ())]
        if c in ("TIFFGetField", "TIFFReadRGBAImage", "TIFFReadRGBAImageOriented", "TIFFRGBAImageOK", "TIFFReadRGBAStrip"):
            return [(False, 0, False, (), ()), (True, 1, False, (), ())]
        if c in ("TIFFReadScanline", "TIFFReadEncodedStrip", "TIFFReadRawStrip"):
            return [(False, -1, True, (), ()), (True, 1, False, (), ())]
        if c == "jpeg_read_header":
            return [(False, 0, False, (), ()), (False, 2, False, (), ()), (True, 1, False, (), ())]
        if c == "png_sig_cmp":
            return [(False, 1, False, (), ()), (True, 0, False, (), ())]
        return None

    def conversions(self, i):
        s = self.prog.gstr(i.ops[1])
        if s is None:
            return None
        return len(re.findall(r"%(?!%)(?!\*)", s.replace("%%", "")))

    # ---- memory read by an operation
    def fills(self, i):
        c = cname(i)
        f = self.f
        if c in ("fread", "fgets"):
            return [i.ops[0]]
        if c in ("fscanf", "sscanf"):
            return i.ops[2:]
        if c == "TIFFGetField":
            return i.ops[2:]
        if c in ("TIFFReadRGBAImage", "TIFFReadRGBAImageOriented"):
            return [i.ops[3]]
        if re.match(r"^llvm\.mem(set|cpy|move)", c):
            return [i.ops[0]]
        return []

    def run(self):
        f = self.f
        self.locals = {i.i for i in f.all() if i.op == "alloca"}
        self.inputs = set()
        for i in f.calls():
            for o in self.fills(i):
                b = base(f, o)
                if b[0] == "v" and not cname(i).startswith("llvm.mem"):
                    self.inputs.add(b)
        self.simple = {i.i: self.cell(["v", i.i]) for i in f.all() if i.op == "load"}
        flow.simulate(f, (None, False, frozenset(), frozenset(), frozenset()), self.transfer, self.edge, keep=flags(f), prune=True)
        return self

    def cell(self, o):
        return None

    # ---- transfer
    def transfer(self, i, st, facts):
        f = self.f
        failed, armed, dirty, short, known = st
        op = i.op
        if op in ("call", "invoke"):
            return self.call(i, st, facts)
        if op == "ret":
            v = flow.value(f, i.ops[0], facts) if i.ops else None
            why = failed
            if why is None and dirty and self.write:
                why = "output of %s still unwritten at return" % ",".join(sorted(self.hname(h) for h in dirty))
            self.rets.add((why, v, i))
            return [st]
        if op == "store":
            b = base(f, i.ops[1])
            k2 = known | {b} if b in self.inputs else known
            k2 = self.note_handler(i, k2)
            return [(failed, armed, dirty, short, k2)] if k2 is not known else [st]
        s2 = short
        if i.i in short:
            s2 = s2 - {i.i}
        sh = lambda o: o[0] == "v" and o[1] in short
        if op in ("add", "or", "mul", "shl") or op in ir.CASTS or op == "freeze":
            if any(sh(o) for o in i.ops):
                s2 = s2 | {i.i}
        if op == "icmp" and failed is not None:
            a, b = i.ops
            v = None
            sa, sb = self.is_short(a, st), self.is_short(b, st)
            p = i.d["pred"]
            if sa != sb and (sa or sb):
                if sb:
                    p = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge",
                         "uge": "ule"}.get(p, p)
                    a, b = b, a
                if b[0] != "c" or self.full(a, b):
                    v = {"eq": 0, "ne": -1, "ult": -1, "slt": -1, "uge": 0, "sge": 0}.get(p)
            if v is not None and flow.value(f, ["v", i.i], facts) is None:
                return [("learn", v, (failed, armed, dirty, s2, known))]
        return [(failed, armed, dirty, s2, known)] if s2 is not short else [st]

    def full(self, a, b):
        """constant b is the count the short value a should have reached"""
        a = strip(self.f, a)
        if a[0] != "v":
            return False
        i = self.f.ins[a[1]]
        if i.op == "call" and cname(i) in ("fwrite", "fread"):
            return flow.value(self.f, i.ops[2], {}) == b[1]
        if i.op == "call" and cname(i) in ("fscanf", "sscanf"):
            return self.conversions(i) == b[1]
        return False

    def is_short(self, o, st):
        if o[0] != "v":
            return False
        if o[1] in st[3]:
            return True
        m = re.search(r"#(\d+)$", st[0])
        return m is not None and self.counter(o, int(m.group(1)))

    def counter(self, o, op):
        """a counter all of whose increments need operation op to succeed"""
        f = self.f
        o = strip(f, o)
        if o[0] != "v":
            return False
        if (o[1], op) in self.seen_short:
            return self.seen_short[(o[1], op)]
        web, q, incs, okk = set(), [o], [], True
        while q:
            x = strip(f, q.pop())
            if x[0] != "v":
                continue            # initial value
            if x[1] in web:
                continue
            web.add(x[1])
            i = f.ins[x[1]]
            if i.op == "phi":
                ob = f.ins[op].bb
                for pb, v in i.d["in"]:
                    if pb == ob or pb in f.reach(ob) or ob in f.reach(pb):
                        q.append(v)
                        if strip(f, v)[0] != "v" and (pb == ob or pb in f.reach(ob)) and ob in f.reach(pb):
                            okk = False     # starts anew in each round of the loop, so it does not count the rounds
            elif i.op in ("add", "sub"):
                if not f.in_loop(i.bb):
                    continue        # part of the initial value
                incs.append(i)
                nxt = [y for y in i.ops if strip(f, y)[0] == "v" and f.ins[strip(f, y)[1]].op in ("phi", "add", "sub")]
                q += nxt[:2]
            elif i.op == "select":
                q += i.ops[1:]
            elif i.op == "load" or i.op == "mul":
                pass
            else:
                okk = False
        cyc = any(f.ins[w].op == "phi" and f.in_loop(f.ins[w].bb) for w in web)
        ok = okk and cyc and bool(incs) and all(self.needs_success(i, op) for i in incs)
        self.seen_short[(o[1], op)] = ok
        return ok

    def needs_success(self, inc, op):
        """the instruction only runs where operation op, in its loop, has succeeded"""
        f = self.f
        for cond, pol in flow.edge_facts(f, inc.bb):
            if cond[0] != "v":
                continue
            ci = f.ins[cond[1]]
            if ci.op != "icmp":
                continue
            for x in ci.ops:
                x = strip(f, x)
                if x[0] == "v" and x[1] == op:
                    if f.ins[x[1]].bb not in f.reach(f.ins[x[1]].bb) or inc.bb not in f.reach(f.ins[x[1]].bb) or \
                            f.ins[x[1]].bb not in f.reach(inc.bb):
                        continue        # not in the counter's loop
                    outs = self.outcomes(f.ins[x[1]], (None, False, frozenset(), frozenset(), frozenset()))
                    if not outs:
                        continue
                    for okk, v, short, _, _ in outs:
                        if okk:
                            continue
                        if v is None:
                            other = ci.ops[1] if strip(f, ci.ops[0]) == x else ci.ops[0]
                            if short and ((ci.d["pred"] == "eq" and pol) or (ci.d["pred"] == "ne" and not pol)):
                                return True
                            continue
                        got = flow.value(f, list(cond), {x[1]: v})
                        if got is not None and bool(got) != pol:
                            return True
        return False

    def hname(self, h):
        if h[0] == "v" and self.f.ins[h[1]].op == "call":
            return "the file opened by " + cname(self.f.ins[h[1]])
        return "the " + str(h[1]) + " encoder" if h[0] == "codec" else "a file"

    def note_handler(self, i, known):
        v, a = i.ops
        if v[0] == "fn":
            e = self.f.addr(i)
            if e[0] == "fld" and e[3] == "error_exit":
                return known | {("handler", v[2] in self.handler)}
        return known

    def call(self, i, st, facts):
        f, c = self.f, cname(i)
        failed, armed, dirty, short, known = st
        short = short - {i.i}
        if SETJMP.match(c):
            out = [("learn", 0, (failed, True, dirty, short, known))]
            out.append(("learn", 1, (failed or "library error after setjmp", False, dirty, short, known)))
            return out
        if re.match(r"^_?_?(sig)?longjmp$", c) or c in ("exit", "abort", "_exit", "__assert_fail"):
            if c != "longjmp" and "longjmp" not in c:
                self.event("terminates", i, "%s ends the program" % c)
            return None
        # handles that may be NULL
        if not re.match(r"^(free|_TIFFfree|png_destroy_\w+|llvm\.)", c):
            for o in i.ops:
                s = strip(f, o)
                if s[0] == "v" and f.ins[s[1]].op == "call" and cname(f.ins[s[1]]) in ("fopen", "TIFFOpen", "png_create_read_struct", "png_create_write_struct"):
                    if flow.value(f, s, facts) == 0:
                        self.event("null-handle", i, "%s receives the handle that %s failed to give" % (c, cname(f.ins[s[1]])))
                        return None
        if c == "jpeg_std_error":
            known = frozenset(x for x in known if x[0] != "handler") | {("handler", False)}
        if CODEC.match(c) and not QUIET.match(c) and i.d.get("link") not in self.prog.all:
            if not armed:
                self.event("guarded-codec-call", i, "%s can raise a library error that no setjmp of this function catches" % c)
            elif c.startswith("jpeg_") and ("handler", True) not in known:
                self.event("guarded-codec-call", i, "%s runs with libjpeg's own error handler, which ends the program" % c)
            else:
                self.event("guarded-codec-call", i, "")
        if c == "jpeg_start_compress" or c in ("png_write_info", "png_write_image", "png_write_row", "png_write_rows"):
            dirty = dirty | {("codec", c.split("_")[0])}
        if c in ("jpeg_finish_compress", "png_write_end"):
            dirty = dirty - {("codec", c.split("_")[0])}
        if c == "jpeg_stdio_dest" or (c == "png_init_io" and self.write):
            dirty = dirty | {base(f, i.ops[1])}
        if c == "TIFFClose" and failed is None and base(f, i.ops[0]) in dirty:
            failed = "rows not flushed before TIFFClose, which reports nothing"
            dirty = dirty - {base(f, i.ops[0])}
        if c == "TIFFClose":
            dirty = dirty - {base(f, i.ops[0])}
        if c.startswith("TIFFReadRGBAImage"):
            k = flow.value(f, i.ops[-1], facts)
            self.event("stops-on-error", i, "" if k else "%s is told to carry on after read errors, and then reports success" % c)
        if c == "ferror":
            if failed and re.match(r"(fread|fscanf|fgets|fgetc|getc|sscanf)", failed):
                return [st]     # a premature end of the file is no error of the stream
            return [("learn", 1 if failed and not failed.startswith("fclose") else 0, (failed, armed, dirty, short, known))]
        outs = self.outcomes(i, st)
        fl = [base(f, o) for o in self.fills(i)]
        if outs is None:
            # any other routine given the address of an input may fill it
            if c not in ("free",) and not c.startswith("llvm."):
                fl = fl + [base(f, o) for o in i.ops if base(f, o) in self.inputs]
            if fl:
                known = known | set(fl)
            return [(failed, armed, dirty, short, known)]
        self.ops.setdefault("%s:%s@%s" % (f.scoped, c, i.i), i)
        res = []
        for ok, v, sh, dd, cl in outs:
            d2 = (dirty | set(dd)) - set(cl)
            if ok:
                k2 = known | set(fl)
                s2 = short
                nf = failed
            else:
                if failed is not None and v is None and sh is False:
                    continue
                k2 = known
                s2 = short | {i.i} if sh else short
                nf = failed or "%s at %s#%d" % (c, i.loc(), i.i)
            n = (nf, armed, d2, s2, k2)
            res.append(("learn", v, n) if v is not None else n)
        return res

    # ---- edges: phi propagation of short values, decisions on memory that was not read
    def edge(self, st, b, n, facts):
        failed, armed, dirty, short, known = st
        f = self.f
        t = f.term(b)
        if failed is not None and t.ops and t.op in ("br", "switch") and flow.value(f, t.ops[0], {}) is None:
            x = self.unread(t.ops[0], known, b)
            if x is not None:
                self.event("decides-on-unread", t, "branch on %s although %s failed" % (x, failed.split("#")[0]))
        s2 = set(short)
        for p in f.bbs[n]:
            if p.op != "phi":
                break
            for pb, o in p.d["in"]:
                if pb == b:
                    s2.discard(p.i)
                    if o[0] == "v" and o[1] in short:
                        s2.add(p.i)
        return (failed, armed, dirty, frozenset(s2), known)

    def unread(self, o, known, b, depth=0):
        """name of an input variable, never given a value, that the condition loads in the block it is decided in"""
        f = self.f
        if o[0] != "v" or depth > 10:
            return None
        i = f.ins[o[1]]
        if i.op == "phi":
            return None
        if i.op == "load":
            r = base(f, i.ops[0])
            if r in self.inputs and r not in known and r[0] == "v" and f.ins[r[1]].op == "alloca":
                return f.ins[r[1]].d.get("dvar") or f.ins[r[1]].d.get("var") or "input"
            return None
        if i.op in ("call", "invoke"):
            return None
        for x in i.ops:
            r = self.unread(x, known, b, depth + 1)
            if r:
                return r
        return None
