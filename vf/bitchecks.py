"""Checks built on the GF(2) engine (vf/gf2.py)."""
import tempfile, shutil, time
from pathlib import Path
from . import core, gf2
from .core import AnalysisError, Finding, Result, VERIF
from .gf2 import Interp, Module, OutOfBounds, Ptr, State, Vars, b_xor, compile_ir, const, mk, to_int


class Work:
    def __enter__(self):
        self.d = Path(tempfile.mkdtemp(prefix="vfb_"))
        self.cfg = core.gen_config(self.d / "cfg")
        return self
    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)
    def module(self, src, defs=(), opt="-O1"):
        return Module(compile_ir(VERIF / "harness" / src, list(defs), self.d, self.cfg, opt))


class Ob:
    """Collects obligations of one job."""
    def __init__(self, job):
        self.r = Result(job); self.t0 = time.time()
        self.r.stats["engine"] = "GF(2)-affine abstract interpretation of LLVM IR (vf/gf2.py)"
    def check(self, rule, ok, where, what, detail=""):
        self.r.obligations += 1
        if ok: self.r.discharged += 1
        elif not any(f.rule == rule for f in self.r.findings):
            self.r.findings.append(Finding(rule, where, what, detail, self.r.job))
        if len(self.r.samples) < 4: self.r.samples.append(f"{self.r.job}: {rule}: {what}"[:160])
    def done(self, interp_fns):
        self.r.functions |= set(interp_fns)
        self.r.stats["wall_s"] = round(time.time() - self.t0, 2)
        return self.r


def same(ob, rule, where, got, want, vars_, what):
    bad = [i for i, (g, w) in enumerate(zip(got, want)) if g != w] if got is not None and len(got) == len(want) else [0]
    d = ""
    if bad and got is not None:
        i = bad[0]
        d = f"bit {i}: code computes {vars_.show(got[i])}; specified {vars_.show(want[i])}"
    ob.check(rule, not bad, where, what, d)


def crc_ref(width, poly, reflected, crc, data):
    """Textbook bit-serial polynomial division with init and final inversion."""
    reg = [b_xor(x, 1) for x in crc]                 # bit i = coefficient as stored
    for byte in data:
        for k in range(8):
            if reflected:
                fb = b_xor(reg[0], byte[k])
                reg = reg[1:] + [0]
                for i in range(width):
                    if (poly >> (width - 1 - i)) & 1: reg[i] = b_xor(reg[i], fb)
            else:
                fb = b_xor(reg[width - 1], byte[7 - k])
                reg = [0] + reg[:-1]
                for i in range(width):
                    if (poly >> i) & 1: reg[i] = b_xor(reg[i], fb)
    return tuple(b_xor(x, 1) for x in reg)


CRCS = [("embc_crc_ccitt_8", 8, 0x07, True), ("embc_crc_ccitt_16", 16, 0x1021, False), ("embc_crc32", 32, 0x04C11DB7, True)]


def crc(tier):
    """Each CRC equals polynomial division for all data and every previous CRC, for each length."""
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(len(CRCS)) as ex:
        return [r for rs in ex.map(crc_one, [(*c, tier) for c in CRCS]) for r in rs]


def crc_one(arg):
    tier, out = arg[4], []
    with Work() as w:
        m = w.module("bits_crc.c")
        for fn, width, poly, refl in [arg[:4]]:
            ob = Ob(fn)
            where = f"src/crc.c ({fn})"
            vis = set()
            lens = [*range(0, 41), 48, 64, 100, 254, 255, 256, 257, 66000] + ([*range(41, 301, 3)] if tier != "quick" else [])
            for n in sorted(set(lens)):
                v = Vars()
                c0 = v.bits("crc", width) if n <= 300 else const(0x5AA55AA5 & ((1 << width) - 1), width)
                # one long run with fixed values, so that the length cannot be narrowed
                data = [v.bits(f"data{i}", 8) if n <= 300 else const((i * 7 + 3) & 255, 8) for i in range(n)]
                s = State()
                p = mk(s, "data", data)
                it = Interp(m, budget=30_000_000)
                try:
                    res = it.run(fn, [c0, p, const(n, 32)], s)
                except OutOfBounds as e:
                    ob.check("bounds", False, where, f"access outside the {n} data bytes", str(e)); continue
                vis |= it.visited
                want = crc_ref(width, poly, refl, list(c0), data) if n else c0
                ob.check("single_result", len(res) == 1, where, f"data-dependent control flow for length {n}")
                for st, r in res:
                    same(ob, "polynomial", where, tuple(st.norm(x) for x in r), tuple(st.norm(x) for x in want), v, f"CRC of {n} bytes from any previous value is the {width}-bit polynomial division")
            for args, what in (([c0, Ptr(None, 0), const(5, 32)], "null data leaves the CRC unchanged"), ([c0, Ptr(None, 0), const(0, 32)], "empty null data leaves the CRC unchanged")):
                v = Vars(); cc = v.bits("crc", width); it = Interp(m)
                try:
                    for st, r in it.run(fn, [cc] + args[1:], State()): same(ob, "null_data", where, r, cc, v, what)
                except OutOfBounds as e: ob.check("null_data", False, where, what, str(e))
            # error detection of the code as analysed: no burst of up to 'width' bits cancels
            n = 40
            v = Vars(); data = [v.bits(f"d{i}", 8) for i in range(n)]; s = State()
            it = Interp(m, budget=10_000_000)
            try:
                res = it.run(fn, [const(0, width), mk(s, "data", data), const(n, 32)], s)[0][1]
            except OutOfBounds: continue
            if None not in res:
                order = [b[k] if refl else b[7 - k] for b in data for k in range(8)]
                cols = []
                for x in order: cols.append(sum(((f >> (x.bit_length() - 1)) & 1) << j for j, f in enumerate(res)))
                bad = None
                for st in range(0, len(cols) - width + 1):
                    basis = {}
                    for c in cols[st:st + width]:
                        while c and c.bit_length() in basis: c ^= basis[c.bit_length()]
                        if not c: bad = st; break
                        basis[c.bit_length()] = c
                    if bad is not None: break
                ob.check("burst_detection", bad is None, where, f"every error burst of up to {width} bits within {n} bytes changes the CRC", f"burst at bit {bad}")
            out.append(ob.done(vis))
    return out


# ---------------------------------------------------------------- LFSR
def lfsr_ref(state, n):
    """n steps of x16+x14+x13+x11+1, shifting right; returns (state, [bits])."""
    st, out = list(state), []
    for _ in range(n):
        b = 0
        for t in (0, 2, 3, 5): b = b_xor(b, st[t])
        out.append(b)
        st = st[1:] + [b]
    return tuple(st), out


def rank(rows):
    basis = {}
    for c in rows:
        while c and c.bit_length() in basis: c ^= basis[c.bit_length()]
        if c: basis[c.bit_length()] = c
    return len(basis)


def mat_mul(a, b):          # rows as bit masks; (a*b)[i] = xor of b rows selected by a[i]
    r = []
    for x in a:
        y = 0; k = 0
        while x:
            if x & 1: y ^= b[k]
            x >>= 1; k += 1
        r.append(y)
    return r


def mat_pow(m, e):
    r = [1 << i for i in range(len(m))]
    while e:
        if e & 1: r = mat_mul(r, m)
        m = mat_mul(m, m); e >>= 1
    return r


def lfsr(tier):
    ob = Ob("lfsr")
    W = "src/lfsr.c"
    vis = set()

    def fatal(it, s, args):
        ob.check("no_fatal", False, W, "embc_fatal is reachable on valid input")
        return []
    with Work() as w:
        m = w.module("bits_lfsr.c")
        I = lambda: Interp(m, stubs={"embc_fatal": fatal}, budget=5_000_000)

        def fresh(v=None, e=0, r=0):
            s = State()
            n = to_int(I().run("h_sizeof", [], State())[0][1])
            p = mk(s, "self", [None] * n)
            if v is not None: I().run("h_set", [p, v, const(e, 32), const(r & 0xffffffff, 32)], s)
            return s, p

        def call(fn, s, args, where):
            it = I()
            try:
                r = it.run(fn, args, s)
            except OutOfBounds as e:
                ob.check("bounds", False, where, str(e)); return []
            vis.update(x for x in it.visited if not x.startswith("h_"))
            return r
        val = lambda s, p: s.nb(I().run("h_value", [p], s)[0][1])
        err = lambda s, p: to_int(I().run("h_errors", [p], s)[0][1])
        # initialise and seed
        s, p = fresh()
        for s, _ in call("embc_lfsr_initialize", s, [p], W):
            ob.check("initial_value", to_int(val(s, p)) == 0xACE1 and err(s, p) == 0, W + " (embc_lfsr_initialize)", "starts at the documented value without errors")
        V = Vars(); x = V.bits("seed", 16); s, p = fresh(const(3, 16))
        for st, _ in call("embc_lfsr_seed_u16", s, [p, x], W):
            zero = all(st.norm(b) == 0 for b in x)
            got = val(st, p)
            if zero: ob.check("seed_zero", to_int(got) == 1, W + " (embc_lfsr_seed_u16)", "seed 0 is replaced by 1")
            else:
                ob.check("seed_value", got == st.nb(x), W + " (embc_lfsr_seed_u16)", "the seed becomes the state")
        # every generator from every state
        for fn, steps, width in (("embc_lfsr_next_u1", 1, 32), ("embc_lfsr_next_u8", 8, 8), ("embc_lfsr_next_u16", 16, 16), ("embc_lfsr_next_u32", 32, 32)):
            V = Vars(); x = V.bits("state", 16); s, p = fresh(x)
            s.assume_ne(list(x))
            rs = call(fn, s, [p], W)
            ob.check("feasible", bool(rs), f"{W} ({fn})", "returns for non-zero states")
            for st, r in rs:
                ns, bits = lfsr_ref(x, steps)
                if steps == 1: want = (bits[0],) + (0,) * 31
                elif steps == 32: want = tuple(bits[16:32]) + tuple(bits[0:16])
                else: want = tuple(bits)
                same(ob, "sequence", f"{W} ({fn})", st.nb(r), st.nb(want), V, f"{fn} returns the next {steps} bits of the sequence from every non-zero state")
                same(ob, "state", f"{W} ({fn})", val(st, p), st.nb(ns), V, f"{fn} advances the state by {steps} steps")
            s, p = fresh(const(0, 16))
            for st, r in call(fn, s, [p], W):
                ns, bits = lfsr_ref(const(1, 16), steps)
                ob.check("zero_state", val(st, p) == ns, f"{W} ({fn})", "a zero state is replaced, so the generator never sticks")
        # maximal period: the step was shown above to be the reference step; rank argument on its matrix
        V = Vars(); x = V.bits("state", 16)
        for M in [[sum(((f >> (b.bit_length() - 1)) & 1) << j for j, b in enumerate(x)) for f in lfsr_ref(x, 1)[0]]]:
            ident = [1 << i for i in range(16)]
            ob.check("period_divides", mat_pow(M, 65535) == ident, W, "65535 steps return to the start from every state")
            for q in (3, 5, 17, 257):
                d = [a ^ b for a, b in zip(mat_pow(M, 65535 // q), ident)]
                ob.check("period_maximal", rank(d) == 16, W, f"no non-zero state repeats after 65535/{q} steps")
        # following a stream
        good = lambda st, r: all(b == 0 for b in st.nb(r))
        bad = lambda st, r: all(b == 1 for b in st.nb(r))
        F = W + " (embc_lfsr_follow_u8)"
        V = Vars(); x = V.bits("stream", 16); s, p = fresh(const(0, 16))
        s.assume_ne(list(x))
        states = call("embc_lfsr_initialize", s, [p], W)
        st_bits, stream = lfsr_ref(x, 8 * 14)
        byte = lambda k: tuple(stream[8 * k:8 * k + 8])
        # the stream is any shift of the sequence, so its two first bytes may be any non-zero 16 bits
        cur = [q for q, _ in states]
        early = V.bits("early", 8)
        for k in range(6):
            nxt = []
            if k >= 2:      # joined after two bytes: a corruption of any later one is reported
                for q in cur:
                    q = q.fork()
                    if not q.assume_ne(list(early)): continue
                    for st, r in call("embc_lfsr_follow_u8", q, [p, tuple(b_xor(a, b) for a, b in zip(q.nb(byte(k)), early))], W):
                        ob.check("follow_detects", bad(st, r) and err(st, p) == 1, F, f"a corruption of byte {k} is reported and counted")
            for q in cur:
                for st, r in call("embc_lfsr_follow_u8", q, [p, q.nb(byte(k))], W):
                    ob.check("follow_intact", good(st, r) and err(st, p) == 0, F, f"byte {k} of an intact stream joined anywhere is accepted without error")
                    nxt.append(st)
            cur = nxt
        ob.check("follow_reached", bool(cur), F, "following proceeds")
        e = V.bits("error", 8)
        nxt = []
        for q in cur:
            if not q.assume_ne(list(e)): continue
            for st, r in call("embc_lfsr_follow_u8", q, [p, tuple(b_xor(a, b) for a, b in zip(q.nb(byte(6)), e))], W):
                ob.check("follow_detects", bad(st, r) and err(st, p) == 1, F, "every corrupted byte is reported and counted")
                nxt.append(st)
        cur = nxt
        for k in range(7, 13):
            nxt = []
            for q in cur:
                for st, r in call("embc_lfsr_follow_u8", q, [p, q.nb(byte(k))], W):
                    if k >= 10: ob.check("follow_recovers", good(st, r), F, "following recovers within three intact bytes after a corruption")
                    ob.check("follow_error_bound", err(st, p) in (1, 2), F, "one corrupted byte counts as one or two errors")
                    nxt.append(st)
            cur = nxt
        ob.check("follow_end", bool(cur), F, "following proceeds after recovery")
        ob.r.stats["partitions_at_end"] = len(cur)
    return [ob.done(vis)]


# ---------------------------------------------------------------- endian
FORMATS = [("u8", 1, "le"), ("u16_be", 2, "be"), ("u16_le", 2, "le"), ("u32_be", 4, "be"), ("u32_le", 4, "le"), ("u64_be", 8, "be"), ("u64_le", 8, "le")]


def endian(tier):
    out = []
    with Work() as w:
        for opt in ("-O0", "-O1", "-O2"):
            m = w.module("bits_endian.c", opt=opt)
            for fmt, n, end in FORMATS:
                ob = Ob(f"endian_{fmt}{opt}")
                vis = set()
                fatals = []

                def fatal(it, s, args): fatals.append(1); return []
                place = lambda v: [v[8 * k:8 * k + 8] for k in (range(n) if end == "le" else range(n - 1, -1, -1))]

                def go(fn, args, s, where):
                    it = Interp(m, stubs={"embc_fatal": fatal})
                    try:
                        r = it.run(fn, args, s)
                    except OutOfBounds as e:
                        ob.check("bounds", False, where, "access outside the encoded bytes", f"{fn}: {e}"); return []
                    vis.add(fn)
                    return r

                def enc(fn, where, pre, post, extra, ret=None, vals=1):
                    V = Vars(); vs = [V.bits(f"value{i}", 8 * n) for i in range(vals)]
                    v = vs[0]
                    for x in vs[1:]: v = tuple(map(b_xor, v, x))
                    old = [V.bits(f"old{i}", 8) for i in range(pre + n + post)]
                    s = State(); p = mk(s, "buf", old); o = mk(s, "out", [None] * 8)
                    rs = go(fn, [p, *vs, *[o if a == "o" else const(a, 32) for a in extra]], s, where)
                    ob.check("completes", len(rs) == 1, where, f"{fn}: one data-independent path")
                    for st, r in rs:
                        got = [st.mem["buf"].get(i) for i in range(pre + n + post)]
                        exp = old[:pre] + place(v) + old[pre + n:]
                        for i, (g, x) in enumerate(zip(got, exp)):
                            same(ob, "encode" if pre <= i < pre + n else "untouched", where, g, x, V, f"{fn}: byte {i}")
                        if ret is not None: ob.check("advance", to_int(r) == ret, where, f"{fn}: advances by {n}")
                        if "o" in extra:
                            rd = lambda k: to_int(sum((st.mem["out"].get(k * 4 + j) for j in range(4)), ()))
                            ob.check("cursor", rd(0) == extra[0] + n and rd(1) == max(extra[1], extra[0] + n), where, f"{fn}: cursor advances by {n}, length covers the data")

                def dec(fn, where, pre, extra, outs):
                    V = Vars(); data = [V.bits(f"byte{i}", 8) for i in range(pre + n)]
                    s = State(); p = mk(s, "buf", data + ([const(0, 8)] * (16 - pre - n) if outs == 2 else [])); o = mk(s, "out", [None] * 8)
                    rs = go(fn, [p, *[o if a == "o" else const(a, 32) for a in extra]], s, where)
                    ob.check("completes", len(rs) == 1, where, f"{fn}: one data-independent path")
                    for st, r in rs:
                        d = data[pre:pre + n]
                        want = sum((d if end == "le" else d[::-1]), ())
                        same(ob, "decode", where, r, want, V, f"{fn}: value")
                        rd = lambda k: to_int(sum((st.mem["out"].get(k * 4 + j) for j in range(4)), ()))
                        if outs == 1: ob.check("advance", rd(0) == n, where, f"{fn}: advances by {n}")
                        if outs == 2: ob.check("cursor", rd(0) == pre + n and rd(1) == extra[1], where, f"{fn}: cursor advances by {n}, length unchanged")
                M = "include/embc/bbuf.h"; U = fmt.upper()
                enc(f"h_mac_enc_{fmt}", f"{M} (EMBC_BBUF_ENCODE_{U})", 0, 0, [])
                enc(f"h_mac_xenc_{fmt}", f"{M} (EMBC_BBUF_ENCODE_{U})", 3, 0, [], vals=2)
                dec(f"h_mac_dec_{fmt}", f"{M} (EMBC_BBUF_DECODE_{U})", 0, [], 0)
                dec(f"h_moff_dec_{fmt}", f"{M} (EMBC_BBUF_DECODE_{U})", 3, [], 0)
                enc(f"h_fun_enc_{fmt}", f"{M} (embc_bbuf_unsafe_encode_{fmt})", 0, 0, [], ret=n)
                dec(f"h_fun_dec_{fmt}", f"{M} (embc_bbuf_unsafe_decode_{fmt})", 0, ["o"], 1)
                B = "src/memory/buffer.c"
                for c, ln in ((0, 0), (5, 5), (2, 14), (16 - n, 16 - n)):
                    if c <= ln: enc(f"h_buf_enc_{fmt}", f"{B} (embc_buffer_write_{fmt})", c, 16 - c - n, [c, ln, "o"])
                for c in (0, 5, 16 - n): dec(f"h_buf_dec_{fmt}", f"{B} (embc_buffer_read_{fmt})", c, [c, c + n, "o"], 2)
                ob.check("no_fatal", not fatals, B, "no assertion on operations that fit")
                # and operations that do not fit are fatal
                V = Vars(); s = State(); p = mk(s, "buf", [V.bits(f"o{i}", 8) for i in range(16)]); o = mk(s, "out", [None] * 8)
                r = go(f"h_buf_enc_{fmt}", [p, V.bits("v", 8 * n), const(17 - n, 32), const(17 - n, 32), o], s, B)
                ob.check("overflow_fatal", not r, f"{B} (embc_buffer_write_{fmt})", "writing past the capacity is fatal")
                s = State(); p = mk(s, "buf", [V.bits(f"o{i}", 8) for i in range(16)]); o = mk(s, "out", [None] * 8)
                r = go(f"h_buf_dec_{fmt}", [p, const(4, 32), const(4 + n - 1, 32), o], s, B)
                ob.check("underflow_fatal", not r, f"{B} (embc_buffer_read_{fmt})", "reading past the length is fatal")
                out.append(ob.done(vis))
    return out
