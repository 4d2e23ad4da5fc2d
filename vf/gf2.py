"""Engine 2: abstract interpretation of LLVM IR over GF(2)-affine bits.

Every bit of every integer is an affine form over GF(2) of the input bits, or
unknown; the abstract state also carries a system of affine equalities (the path
facts).  Transfer functions are exact for shifts, xor, masks, casts, tables that
are affine, byte swaps and multiplications by constants with disjoint bits, and
fall back to 'unknown' otherwise, so every derived equality holds for all inputs.
Nothing is executed and no solver is involved: facts are kept in echelon form."""
import ctypes as C, subprocess, tempfile, shutil
from pathlib import Path
from . import core
from .core import AnalysisError, Finding, Result, VERIF

_L = None
def L():
    global _L
    if _L is None:
        try:
            _L = C.CDLL("libLLVM-18.so")
        except OSError:
            _L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so")
        P = C.c_void_p
        for n, r, a in [
            ("LLVMContextCreate", P, []), ("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, [C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p)]),
            ("LLVMParseIRInContext", C.c_int, [P, P, C.POINTER(P), C.POINTER(C.c_char_p)]),
            ("LLVMGetFirstFunction", P, [P]), ("LLVMGetNextFunction", P, [P]), ("LLVMGetFirstGlobal", P, [P]), ("LLVMGetNextGlobal", P, [P]),
            ("LLVMGetValueName2", C.c_char_p, [P, C.POINTER(C.c_size_t)]), ("LLVMCountParams", C.c_uint, [P]), ("LLVMGetParam", P, [P, C.c_uint]),
            ("LLVMGetFirstBasicBlock", P, [P]), ("LLVMGetNextBasicBlock", P, [P]), ("LLVMGetFirstInstruction", P, [P]), ("LLVMGetNextInstruction", P, [P]),
            ("LLVMGetInstructionOpcode", C.c_int, [P]), ("LLVMGetNumOperands", C.c_int, [P]), ("LLVMGetOperand", P, [P, C.c_uint]),
            ("LLVMTypeOf", P, [P]), ("LLVMGetTypeKind", C.c_int, [P]), ("LLVMGetIntTypeWidth", C.c_uint, [P]),
            ("LLVMIsAConstantInt", P, [P]), ("LLVMConstIntGetZExtValue", C.c_ulonglong, [P]), ("LLVMIsAGlobalVariable", P, [P]), ("LLVMIsAFunction", P, [P]),
            ("LLVMIsAConstantPointerNull", P, [P]), ("LLVMIsUndef", C.c_int, [P]), ("LLVMIsAConstantExpr", P, [P]), ("LLVMGetConstOpcode", C.c_int, [P]),
            ("LLVMGetInitializer", P, [P]), ("LLVMIsGlobalConstant", C.c_int, [P]), ("LLVMGetICmpPredicate", C.c_int, [P]),
            ("LLVMCountIncoming", C.c_uint, [P]), ("LLVMGetIncomingValue", P, [P, C.c_uint]), ("LLVMGetIncomingBlock", P, [P, C.c_uint]),
            ("LLVMIsConditional", C.c_int, [P]), ("LLVMGetCondition", P, [P]), ("LLVMGetNumSuccessors", C.c_uint, [P]), ("LLVMGetSuccessor", P, [P, C.c_uint]),
            ("LLVMGetCalledValue", P, [P]), ("LLVMGetNumArgOperands", C.c_uint, [P]), ("LLVMGetAllocatedType", P, [P]), ("LLVMGetGEPSourceElementType", P, [P]),
            ("LLVMGetModuleDataLayout", P, [P]), ("LLVMABISizeOfType", C.c_ulonglong, [P, P]), ("LLVMOffsetOfElement", C.c_ulonglong, [P, P, C.c_uint]),
            ("LLVMGetElementType", P, [P]), ("LLVMStructGetTypeAtIndex", P, [P, C.c_uint]), ("LLVMGlobalGetValueType", P, [P]),
            ("LLVMIsAConstantAggregateZero", P, [P]), ("LLVMIsAConstantDataSequential", P, [P]), ("LLVMGetElementAsConstant", P, [P, C.c_uint]),
            ("LLVMGetArrayLength", C.c_uint, [P]), ("LLVMCountStructElementTypes", C.c_uint, [P]), ("LLVMGetAggregateElement", P, [P, C.c_uint]),
            ("LLVMGetSwitchDefaultDest", P, [P]), ("LLVMPrintValueToString", C.c_char_p, [P]), ("LLVMIsDeclaration", C.c_int, [P]),
            ("LLVMGetNumIndices", C.c_uint, [P]), ("LLVMGetIndices", C.POINTER(C.c_uint), [P]),
            ("LLVMIsPoison", C.c_int, [P]),
        ]:
            f = getattr(_L, n); f.restype = r; f.argtypes = a
    return _L

K_INT, K_STRUCT, K_ARRAY, K_PTR = 8, 10, 11, 12
def kind(t): return L().LLVMGetTypeKind(t)


class Ptr:
    __slots__ = ("obj", "off")
    def __init__(self, obj, off): self.obj, self.off = obj, off
    def __eq__(self, o): return isinstance(o, Ptr) and (self.obj, self.off) == (o.obj, o.off)
    def __hash__(self): return hash((self.obj, self.off))
    def __repr__(self): return f"&{self.obj}+{self.off}"

def const(v, n): return tuple((v >> i) & 1 for i in range(n))
def to_int(b):
    v = 0
    for i, x in enumerate(b):
        if x is None or x > 1: return None
        v |= x << i
    return v

def b_and(a, b):
    if a == 0 or b == 0: return 0
    if a == 1: return b
    if b == 1: return a
    if a is None or b is None: return None
    if a == b: return a
    if a == b ^ 1: return 0
    return None
def b_xor(a, b): return None if a is None or b is None else a ^ b
def b_or(a, b):
    if a == 1 or b == 1: return 1
    if a == 0: return b
    if b == 0: return a
    if a is None or b is None: return None
    if a == b: return a
    if a == b ^ 1: return 1
    return None
def b_maj(a, b, c):
    for x, y, z in ((a, b, c), (b, c, a), (a, c, b)):
        if x is not None and x == y: return x
        if x is not None and y is not None and x == y ^ 1: return z
    return None
def add(a, b, c=0):
    r = []
    for x, y in zip(a, b):
        r.append(b_xor(b_xor(x, y), c))
        c = b_maj(x, y, c)
    return tuple(r), c
def neg1(a): return tuple(b_xor(x, 1) for x in a)


class State:
    """Path facts: affine equalities in echelon form, and disequalities."""
    def __init__(self):
        self.eq = {}      # pivot bit -> affine form without any pivot
        self.mask = 0     # the pivot bits
        self.ne = []      # lists of affine bits of which at least one is 1
        self.mem = {}     # obj -> {byte offset: bits(8) | ('p', Ptr, k)}
        self.size = {}
        self.ro = set()
    def fork(self):
        s = State(); s.eq = dict(self.eq); s.mask = self.mask; s.ne = list(self.ne)
        s.mem = {k: dict(v) for k, v in self.mem.items()}; s.size = dict(self.size); s.ro = set(self.ro)
        return s
    def norm(self, f):
        if f is None: return None
        m = f & self.mask
        while m:
            p = m.bit_length() - 1
            f ^= (1 << p) ^ self.eq[p]; m ^= 1 << p
        return f
    def nb(self, bits): return tuple(self.norm(x) for x in bits) if self.eq and not isinstance(bits, Ptr) else bits
    def assume(self, f):
        """Add fact f == 0; False when contradictory."""
        f = self.norm(f)
        if f is None or f == 0: return self.consistent()
        if f == 1: return False
        p = f.bit_length() - 1
        e = f ^ (1 << p)
        for q in list(self.eq):
            if (self.eq[q] >> p) & 1: self.eq[q] ^= (1 << p) ^ e
        self.eq[p] = e; self.mask |= 1 << p
        return self.consistent()
    def assume_ne(self, fs):
        fs = [self.norm(f) for f in fs]
        if any(f is None or f == 1 for f in fs): return True
        fs = [f for f in fs if f]
        if not fs: return False
        if len(fs) == 1: return self.assume(fs[0] ^ 1)
        self.ne.append(fs)
        return True
    def gens(self): return [(1 << p) ^ e for p, e in self.eq.items()]
    def consistent(self):
        for fs in self.ne:
            if all(self.norm(f) == 0 for f in fs): return False
        return True


class Join:
    """Least common affine description of two partitions A and B.
    A bit with forms a on A and b on B has a common form f iff a^b lies in
    span(A)+span(B), where span() is the set of forms that vanish on a partition;
    the joined partition keeps the facts span(A) & span(B) (the affine hull)."""
    def __init__(self, A, B):
        self.rows = []      # (form, its part from span(A)), echelon
        self.common = []
        for part, g in [(g, g) for g in A.gens()] + [(0, g) for g in B.gens()]:
            f, part = self.reduce(g, part)
            if f: self.rows.append((f, part, f.bit_length() - 1))
            elif part: self.common.append(part)     # also in span(B)
    def reduce(self, f, part=0):
        for r, q, top in sorted(self.rows, key=lambda t: -t[2]):
            if (f >> top) & 1: f ^= r; part ^= q
        return f, part
    def bit(self, a, b):
        if a is None or b is None:
            if a is None and b is None: return None
            raise NoJoin
        if a == b: return a
        f, part = self.reduce(a ^ b)
        if f: raise NoJoin
        return a ^ part
    def value(self, a, b):
        if a is None and b is None: return None
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a == b: return a
            raise NoJoin
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            if a and a[0] == "p" or b and b[0] == "p":
                if a == b: return a
                raise NoJoin
            return tuple(self.bit(x, y) for x, y in zip(a, b))
        if isinstance(a, SymPtr) and isinstance(b, SymPtr) and (a.obj, a.off, a.scale) == (b.obj, b.off, b.scale):
            return SymPtr(a.obj, a.off, self.value(a.ix, b.ix), a.scale)
        if isinstance(a, Cmp) and isinstance(b, Cmp) and a.p == b.p:
            return Cmp(a.p, self.value(a.a, b.a), self.value(a.b, b.b))
        raise NoJoin

class NoJoin(Exception):
    pass

def join_states(A, B, pairs):
    """(joined state, joined values) or None; pairs are the live values (on A, on B)."""
    if A.size != B.size or A.mem.keys() != B.mem.keys(): return None
    j = Join(A, B)
    try:
        vals = [j.value(a, b) for a, b in pairs]
        mem = {}
        for o in A.mem:
            x, y = A.mem[o], B.mem[o]
            if x.keys() != y.keys(): return None
            mem[o] = {k: c if c == y[k] else j.value(c, y[k]) for k, c in x.items()}
    except NoJoin:
        return None
    s = State()
    s.mem, s.size, s.ro = mem, dict(A.size), A.ro | B.ro
    for g in j.common: s.assume(g)
    s.ne = [fs for fs in A.ne if fs in B.ne]
    return s, vals


class Cfg:
    """Loop nest, loop-contiguous block order and live values of one function."""
    def __init__(self, f):
        l = L()
        self.blocks, self.succ, self.ins = [], {}, {}
        b = l.LLVMGetFirstBasicBlock(f)
        while b:
            self.blocks.append(b); self.ins[b] = []
            i = l.LLVMGetFirstInstruction(b)
            while i:
                self.ins[b].append(i); i = l.LLVMGetNextInstruction(i)
            t = self.ins[b][-1]
            self.succ[b] = [l.LLVMGetSuccessor(t, k) for k in range(l.LLVMGetNumSuccessors(t))]
            b = l.LLVMGetNextBasicBlock(b)
        entry = self.blocks[0]
        self.live(l)
        self.loops = {}       # head -> set of blocks
        dom = {b: set(self.blocks) for b in self.blocks}; dom[entry] = {entry}
        pred = {b: [] for b in self.blocks}
        for b in self.blocks:
            for x in self.succ[b]: pred[x].append(b)
        ch = True
        while ch:
            ch = False
            for b in self.blocks[1:]:
                d = set.intersection(*[dom[x] for x in pred[b]]) if pred[b] else set()
                d = d | {b}
                if d != dom[b]: dom[b] = d; ch = True
        for b in self.blocks:
            for h in self.succ[b]:
                if h in dom[b]:
                    body = self.loops.setdefault(h, {h}); st = [b]
                    while st:
                        x = st.pop()
                        if x not in body: body.add(x); st += pred[x]
        self.nest = {b: sorted([h for h in self.loops if b in self.loops[h]], key=lambda h: -len(self.loops[h])) for b in self.blocks}
        self.pos = {}
        self.order(entry, set(self.blocks), None)
        self.back = {(b, h) for h in self.loops for b in self.loops[h] if h in self.succ[b]}
    def order(self, head, region, loop):
        """Topological order of a region with inner loops collapsed."""
        def rep(b):
            n = [h for h in self.nest[b] if h in region and h != loop and len(self.loops[h]) <= len(region)]
            return n[0] if n else b
        seen, post = set(), []
        def dfs(b):
            stack = [(b, iter(self.out(b, region, loop)))]; seen.add(b)
            while stack:
                x, it = stack[-1]
                for y in it:
                    y = rep(y)
                    if y not in seen:
                        seen.add(y); stack.append((y, iter(self.out(y, region, loop)))); break
                else:
                    post.append(x); stack.pop()
        dfs(rep(head))
        for k, b in enumerate(reversed(post)): self.pos[(loop, b)] = k
        for b in post:
            if b in self.loops and b != loop: self.order(b, self.loops[b], b)
    def out(self, b, region, loop):
        body = self.loops[b] if b in self.loops and b != loop else {b}
        return [y for x in body for y in self.succ[x] if y in region and y not in body and y != loop]
    def key(self, b, it):
        k, outer = (), None
        for h in self.nest[b]:
            k += (self.pos.get((outer, h), 0), it.get(h, 0)); outer = h
        return k + (self.pos.get((outer, b), 0),)
    def live(self, l):
        use, de, self.phiuse = {}, {}, {}
        self.opnds = {}
        for b in self.blocks:
            u, d = set(), set()
            for i in self.ins[b]:
                if l.LLVMGetInstructionOpcode(i) == 44:
                    for k in range(l.LLVMCountIncoming(i)):
                        self.phiuse.setdefault(l.LLVMGetIncomingBlock(i, k), set()).add(l.LLVMGetIncomingValue(i, k))
                else:
                    o = {l.LLVMGetOperand(i, k) for k in range(l.LLVMGetNumOperands(i))}
                    self.opnds[i] = o
                    u |= o - d
                d.add(i)
            use[b], de[b] = u, d
        lin = {b: set() for b in self.blocks}
        self.lout = {b: set() for b in self.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.blocks):
                o = set(self.phiuse.get(b, ()))
                for x in self.succ[b]: o |= lin[x]
                n = use[b] | (o - de[b])
                if n != lin[b] or o != self.lout[b]: lin[b], self.lout[b] = n, o; ch = True
    def live_at(self, b, ins):
        r = set(self.lout[b])
        for i in reversed(self.ins[b]):
            r.discard(i); r |= self.opnds.get(i, set())
            if i == ins: return r
        return r


class Module:
    def __init__(self, ll):
        l = L()
        self.ctx = l.LLVMContextCreate()
        buf, msg = C.c_void_p(), C.c_char_p()
        if l.LLVMCreateMemoryBufferWithContentsOfFile(str(ll).encode(), C.byref(buf), C.byref(msg)):
            raise AnalysisError(f"cannot read {ll}")
        m = C.c_void_p()
        if l.LLVMParseIRInContext(self.ctx, buf, C.byref(m), C.byref(msg)):
            raise AnalysisError(f"cannot parse IR: {msg.value}")
        self.m = m
        self.dl = l.LLVMGetModuleDataLayout(m)
        self.cfgs = {}
        self.fn = {}
        f = l.LLVMGetFirstFunction(m)
        while f:
            self.fn[self.name(f)] = f
            f = l.LLVMGetNextFunction(f)
    def name(self, v):
        n = C.c_size_t()
        s = L().LLVMGetValueName2(v, C.byref(n))
        return s.decode() if s else ""
    def cfg(self, f):
        if f not in self.cfgs: self.cfgs[f] = Cfg(f)
        return self.cfgs[f]
    def sizeof(self, t): return L().LLVMABISizeOfType(self.dl, t)


def compile_ir(src, defs, work, cfg, opt="-O1"):
    out = Path(work) / (Path(src).stem + "_" + "_".join(defs or ["x"]).replace("=", "") + ".bc")
    cmd = ["clang-18", "-std=gnu99", opt, "-g0", "-fno-vectorize", "-fno-slp-vectorize", "-fno-builtin-printf", "-w",
           "-c", "-emit-llvm", *[f"-D{d}" for d in defs or []], "-D__FILENAME__=\"f.c\"",
           f"-I{core.REPO}", f"-I{core.REPO}/include", f"-I{cfg}", f"-I{VERIF}/harness", str(src), "-o", str(out)]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True)
    except FileNotFoundError:
        cmd[0] = "clang"
        p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise AnalysisError("compilation to IR failed:\n" + p.stderr[-2000:])
    return out


class Work:
    """Pending partitions, in an order that lets partitions meet again before loops go on."""
    def __init__(self, cfg): self.cfg, self.q = cfg, []
    def push(self, s, env, prev, bb, ins, it): self.q.append((self.cfg.key(bb, it), s, env, bb, ins, it))
    def pop(self, merge):
        m = min(self.q, key=lambda t: t[0])
        if not merge:
            self.q.pop(next(k for k, t in enumerate(self.q) if t is m))
            return m
        same = [t for t in self.q if t[0] == m[0] and t[3] == m[3] and t[4] == m[4] and t[5] == m[5]]
        if len(same) == 1:
            self.q.pop(next(k for k, t in enumerate(self.q) if t is m)); return m
        ids = {id(t) for t in same}
        self.q = [t for t in self.q if id(t) not in ids]
        live = sorted(v for v in self.cfg.live_at(m[3], m[4]) if all(v in t[2] for t in same))
        r = []
        for t in same:
            for k, u in enumerate(r):
                j = join_states(u[1], t[1], [(u[2][v], t[2][v]) for v in live])
                if j:
                    r[k] = (u[0], j[0], dict(zip(live, j[1])), u[3], u[4], u[5]); break
            else: r.append(t)
        self.q += r[1:]
        return r[0]

class Edge:
    def __init__(self, ip, work, it): self.ip, self.work, self.it = ip, work, it
    def go(self, s, env, prev, bb):
        it, c = self.it, self.work.cfg
        if bb in c.loops:
            it = dict(it)
            it[bb] = it.get(bb, 0) + 1 if (prev, bb) in c.back else 0
        ins = self.ip.phis(s, env, prev, bb)
        self.work.push(s, env, prev, bb, ins, {h: it.get(h, 0) for h in c.nest[bb]})
    def stay(self, s, env, bb, ins): self.work.push(s, env, None, bb, ins, self.it)


class Interp:
    """One abstract run of a function: returns [(State, return value)]."""
    def __init__(self, mod, stubs=None, budget=400000, maxpaths=4000):
        self.mod, self.stubs, self.budget, self.maxpaths = mod, stubs or {}, budget, maxpaths
        self.visited = set()
        self.fresh = 0
        self.oob = []

    # -- values
    def const_bytes(self, v, t, s, obj, off):
        l = L(); k = kind(t)
        if l.LLVMIsAConstantAggregateZero(v) or l.LLVMIsAConstantPointerNull(v) or l.LLVMIsUndef(v):
            for i in range(self.mod.sizeof(t)): s.mem[obj][off + i] = const(0, 8)
        elif k == K_INT:
            n = self.mod.sizeof(t); x = l.LLVMConstIntGetZExtValue(v)
            for i in range(n): s.mem[obj][off + i] = const((x >> (8 * i)) & 255, 8)
        elif k == K_ARRAY:
            et = l.LLVMGetElementType(t); es = self.mod.sizeof(et)
            for i in range(l.LLVMGetArrayLength(t)):
                e = l.LLVMGetElementAsConstant(v, i) if l.LLVMIsAConstantDataSequential(v) else l.LLVMGetAggregateElement(v, i)
                self.const_bytes(e, et, s, obj, off + i * es)
        elif k == K_STRUCT:
            for i in range(l.LLVMCountStructElementTypes(t)):
                self.const_bytes(l.LLVMGetAggregateElement(v, i), l.LLVMStructGetTypeAtIndex(t, i), s, obj, off + l.LLVMOffsetOfElement(self.mod.dl, t, i))
        elif k == K_PTR:
            p = self.val(v, {}, s)
            for i in range(8): s.mem[obj][off + i] = ("p", p, i)
        else:
            raise AnalysisError("unsupported constant initialiser")
    def glob(self, v, s):
        l = L(); n = "@" + self.mod.name(v)
        if n not in s.mem:
            s.mem[n] = {}
            t = l.LLVMGlobalGetValueType(v)
            s.size[n] = self.mod.sizeof(t)
            init = l.LLVMGetInitializer(v)
            if not init: raise AnalysisError(f"external global {n}")
            self.const_bytes(init, t, s, n, 0)
            if l.LLVMIsGlobalConstant(v): s.ro.add(n)
        return Ptr(n, 0)
    def val(self, v, env, s):
        if v in env: return env[v]
        l = L(); t = l.LLVMTypeOf(v)
        if l.LLVMIsAConstantInt(v):
            w = l.LLVMGetIntTypeWidth(t)
            return const(l.LLVMConstIntGetZExtValue(v), w)
        if l.LLVMIsAConstantPointerNull(v): return Ptr(None, 0)
        if l.LLVMIsAGlobalVariable(v): return self.glob(v, s)
        if l.LLVMIsAFunction(v): return Ptr("fn:" + self.mod.name(v), 0)
        if l.LLVMIsUndef(v):
            return Ptr("undef", 0) if kind(t) == K_PTR else (None,) * l.LLVMGetIntTypeWidth(t)
        if l.LLVMIsAConstantExpr(v):
            op = l.LLVMGetConstOpcode(v)
            if op == 29: return self.gep(v, env, s)
            if op in (39, 40, 41): return self.val(l.LLVMGetOperand(v, 0), env, s)
        raise AnalysisError("unsupported operand: " + l.LLVMPrintValueToString(v).decode())
    def gep(self, i, env, s):
        l = L()
        p = self.val(l.LLVMGetOperand(i, 0), env, s)
        t = l.LLVMGetGEPSourceElementType(i)
        off = p.off
        sym = None
        for k in range(1, l.LLVMGetNumOperands(i)):
            ix = self.val(l.LLVMGetOperand(i, k), env, s)
            ix = s.nb(ix)
            n = to_int(ix)
            if n is not None and (n >> (len(ix) - 1)): n -= 1 << len(ix)
            if k == 1: scale = self.mod.sizeof(t)
            elif kind(t) == K_ARRAY: t = l.LLVMGetElementType(t); scale = self.mod.sizeof(t)
            elif kind(t) == K_STRUCT:
                off += l.LLVMOffsetOfElement(self.mod.dl, t, n); t = l.LLVMStructGetTypeAtIndex(t, n); continue
            else: raise AnalysisError("unsupported address computation")
            if n is None:
                if sym is not None: raise AnalysisError("two symbolic indices")
                sym = (ix, scale)
            else: off += n * scale
        return Ptr(p.obj, off) if sym is None else SymPtr(p.obj, off, *sym)

    # -- memory
    def load(self, p, t, s, where):
        n = self.mod.sizeof(t)
        if isinstance(p, SymPtr): return self.table(p, t, s, where)
        self.bounds(p, n, s, where)
        m = s.mem[p.obj]
        if kind(t) == K_PTR:
            c = m.get(p.off)
            if isinstance(c, tuple) and c and c[0] == "p" and c[2] == 0: return c[1]
            if c is not None and all(to_int(m.get(p.off + i, (None,))) == 0 for i in range(8)): return Ptr(None, 0)
            raise AnalysisError(f"load of an untracked pointer at {where}")
        bits = []
        for i in range(n):
            c = m.get(p.off + i)
            bits += list((None,) * 8 if c is None or c[0] == "p" else c)
        return s.nb(tuple(bits[:L().LLVMGetIntTypeWidth(t)]))
    def bounds(self, p, n, s, where):
        if p.obj is None or p.obj not in s.mem: raise OutOfBounds(f"{where}: access through {p}")
        if p.off < 0 or p.off + n > s.size[p.obj]: raise OutOfBounds(f"{where}: access of {n} bytes at {p} of {s.size[p.obj]}")
    def table(self, p, t, s, where):
        """Indexed read: exact when the table is an affine function of the index."""
        ix = p.ix; free = [k for k, b in enumerate(ix) if b is None or b > 1]
        if len(free) > 12: raise AnalysisError("table index too wide")
        base = sum(b << k for k, b in enumerate(ix) if b == 1)
        if base >> (len(ix) - 1): base -= 1 << len(ix)
        w = L().LLVMGetIntTypeWidth(t); es = self.mod.sizeof(t)
        rd = []
        for c in range(1 << len(free)):
            n = base + sum(1 << k for j, k in enumerate(free) if (c >> j) & 1)
            q = Ptr(p.obj, p.off + n * p.scale)
            self.bounds(q, es, s, where)
            rd.append(self.load(q, t, s, where))
        cv = [to_int(x) for x in rd]
        if None in cv: return (None,) * w
        g = [cv[1 << j] ^ cv[0] for j in range(len(free))]
        for c, x in enumerate(cv):
            y = cv[0]
            for j in range(len(free)):
                if (c >> j) & 1: y ^= g[j]
            if y != x: return (None,) * w
        r = list(const(cv[0], w))
        for j, k in enumerate(free):
            for b in range(w):
                if (g[j] >> b) & 1: r[b] = b_xor(r[b], ix[k])
        return tuple(r)
    def store(self, p, v, t, s, where):
        n = self.mod.sizeof(t)
        if isinstance(p, SymPtr): raise AnalysisError(f"{where}: symbolic store")
        self.bounds(p, n, s, where)
        if p.obj in s.ro: raise OutOfBounds(f"{where}: write to constant {p.obj}")
        m = s.mem[p.obj]
        if isinstance(v, Ptr):
            for i in range(8): m[p.off + i] = ("p", v, i)
        else:
            v = tuple(v) + (0,) * (8 * n - len(v))
            for i in range(n): m[p.off + i] = v[8 * i:8 * i + 8]

    # -- control
    JOIN = 6      # partitions of one call are merged above this number
    def run(self, fname, args, s=None, depth=0):
        l = L()
        f = self.mod.fn.get(fname)
        if not f or l.LLVMIsDeclaration(f): raise AnalysisError(f"no code for {fname}")
        self.visited.add(fname)
        cfg = self.mod.cfg(f)
        env = {}
        for i in range(l.LLVMCountParams(f)): env[l.LLVMGetParam(f, i)] = args[i]
        out = []
        work = Work(cfg)
        work.push(s or State(), env, None, l.LLVMGetFirstBasicBlock(f), l.LLVMGetFirstInstruction(l.LLVMGetFirstBasicBlock(f)), {})
        while work.q:
            if len(work.q) + len(out) > self.maxpaths: raise AnalysisError(f"{fname}: too many partitions")
            key, st, env, bb, resume, it = work.pop(len(work.q) + len(out) > self.JOIN)
            self.block(fname, st, env, bb, resume, Edge(self, work, it), out, depth)
        if len(out) > self.JOIN: out = self.merge_out(out)
        return out
    def merge_out(self, out):
        r = []
        for st, v in out:
            for k, (q, w) in enumerate(r):
                j = join_states(q, st, [(w, v)])
                if j: r[k] = (j[0], j[1][0]); break
            else: r.append((st, v))
        return r
    def phis(self, s, env, prev, bb):
        l = L(); phis = []
        ins = l.LLVMGetFirstInstruction(bb)
        while ins and l.LLVMGetInstructionOpcode(ins) == 44:
            for k in range(l.LLVMCountIncoming(ins)):
                if l.LLVMGetIncomingBlock(ins, k) == prev:
                    phis.append((ins, self.val(l.LLVMGetIncomingValue(ins, k), env, s))); break
            else: raise AnalysisError("phi without matching predecessor")
            ins = l.LLVMGetNextInstruction(ins)
        for i, v in phis: env[i] = v
        return ins
    def block(self, fname, s, env, bb, resume, work, out, depth):
        l = L()
        ins = resume
        while ins:
            self.budget -= 1
            if self.budget < 0: raise AnalysisError(f"{fname}: instruction budget exhausted")
            op = l.LLVMGetInstructionOpcode(ins)
            if op == 1:
                n = l.LLVMGetNumOperands(ins)
                out.append((s, self.val(l.LLVMGetOperand(ins, 0), env, s) if n else None)); return
            if op == 7: raise AnalysisError(f"{fname}: unreachable reached")
            if op == 2:
                if not l.LLVMIsConditional(ins):
                    work.go(s, env, bb, l.LLVMGetSuccessor(ins, 0)); return
                c = self.val(l.LLVMGetCondition(ins), env, s)
                for truth, st in self.split(c, s):
                    work.go(st, dict(env), bb, l.LLVMGetSuccessor(ins, 0 if truth else 1))
                return
            if op == 3:
                v = s.nb(self.val(l.LLVMGetOperand(ins, 0), env, s)); n = to_int(v)
                cases = [(l.LLVMConstIntGetZExtValue(l.LLVMGetOperand(ins, 2 + 2 * k)), l.LLVMGetSuccessor(ins, k + 1)) for k in range(l.LLVMGetNumSuccessors(ins) - 1)]
                dflt = l.LLVMGetSwitchDefaultDest(ins)
                if n is not None:
                    work.go(s, env, bb, dict(cases).get(n, dflt)); return
                rest = s
                for cv, dst in cases:
                    d = [b_xor(a, b) for a, b in zip(v, const(cv, len(v)))]
                    st = rest.fork()
                    if all(st.assume(x) for x in d): work.go(st, dict(env), bb, dst)
                    if not rest.assume_ne(d): return
                work.go(rest, env, bb, dflt); return
            if op == 45:
                r = self.call(ins, env, s, depth)
                nx = l.LLVMGetNextInstruction(ins)
                for st, v in r[1:]:
                    e2 = dict(env); e2[ins] = v
                    work.stay(st, e2, bb, nx)
                if not r: return
                s, env[ins] = r[0]
                ins = nx
                continue
            if op == 46:
                c = self.val(l.LLVMGetOperand(ins, 0), env, s)
                a = self.val(l.LLVMGetOperand(ins, 1), env, s); b = self.val(l.LLVMGetOperand(ins, 2), env, s)
                c0 = self.cond(c, s)
                if c0 in (0, 1): env[ins] = a if c0 else b
                else:
                    r = None
                    if not isinstance(a, Ptr) and c0 is not None:
                        r = []
                        for x, y in zip(s.nb(a), s.nb(b)):
                            d = b_xor(x, y)
                            r.append(x if d == 0 else b_xor(y, c0) if d == 1 else b_xor(y, b_and(c0, d)) if b_and(c0, d) is not None else None)
                    if r is None or None in r:
                        nx = l.LLVMGetNextInstruction(ins)
                        for truth, st in self.split(c, s):
                            e2 = dict(env); e2[ins] = a if truth else b
                            work.stay(st, e2, bb, nx)
                        return
                    env[ins] = tuple(r)
            else:
                env[ins] = self.inst(op, ins, env, s, fname)
            ins = l.LLVMGetNextInstruction(ins)
    def cond(self, c, s):
        if isinstance(c, Cmp):
            return c.bit(s)
        return s.norm(c[0]) if s.eq else c[0]
    def split(self, c, s):
        """Partition the state by a condition; infeasible parts are dropped."""
        if isinstance(c, tuple): c = Cmp("bit", c, None)
        v = c.bit(s)
        if v in (0, 1): return [(bool(v), s)]
        r = []
        for truth in (True, False):
            st = s.fork()
            if c.assume(st, truth): r.append((truth, st))
        return r
    def inst(self, op, i, env, s, fname):
        l = L()
        where = f"{fname}"
        V = lambda k: self.val(l.LLVMGetOperand(i, k), env, s)
        t = l.LLVMTypeOf(i)
        if op == 26:
            at = l.LLVMGetAllocatedType(i)
            self.fresh += 1
            n = f"local{self.fresh}"
            s.mem[n] = {}; s.size[n] = self.mod.sizeof(at)
            return Ptr(n, 0)
        if op == 27: return self.load(V(0), t, s, where)
        if op == 28:
            v = V(0)
            if isinstance(v, Cmp): v = v.bits(s)
            self.store(V(1), v, l.LLVMTypeOf(l.LLVMGetOperand(i, 0)), s, where); return None
        if op == 29: return self.gep(i, env, s)
        if op == 68: return V(0)
        if op == 42: return Cmp(l.LLVMGetICmpPredicate(i), V(0), V(1))
        w = l.LLVMGetIntTypeWidth(t) if kind(t) == K_INT else 64
        a = V(0)
        if isinstance(a, Cmp): a = a.bits(s) if op not in (25, 23, 24) else a
        if op in (23, 24, 25) and w == 1:
            b = V(1)
            if op == 25 and isinstance(a, Cmp) and isinstance(b, tuple) and b == (1,): return a.inv()
            if isinstance(a, Cmp): a = a.bits(s)
            if isinstance(b, Cmp): b = b.bits(s)
        elif op in range(8, 26):
            b = V(1)
        if op == 38 or op == 30 or op == 31 or op == 32:
            a = s.nb(a)
            return a[:w] if op == 30 else a + (0,) * (w - len(a)) if op == 31 else a + (a[-1],) * (w - len(a))
        if op in (39, 40): return a
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 10 and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj: return const((a.off - b.off) & (2**w - 1), w)
            raise AnalysisError(f"{where}: pointer arithmetic")
        a, b = s.nb(a), s.nb(b)
        if op == 8: return add(a, b)[0]
        if op == 10: return add(a, neg1(b), 1)[0]
        if op == 23: return tuple(map(b_and, a, b))
        if op == 24: return tuple(map(b_or, a, b))
        if op == 25: return tuple(map(b_xor, a, b))
        n = to_int(b)
        if op in (20, 21, 22):
            if n is None: return (None,) * w
            if n >= w: raise OutOfBounds(f"{where}: shift by {n}")
            if op == 20: return (0,) * n + a[:w - n]
            return a[n:] + ((0,) if op == 21 else (a[-1],)) * n
        if op == 12:
            if n is None: a, b, n = b, a, to_int(a)
            if n is None: return (None,) * w
            r = const(0, w)
            for k in range(w):
                if (n >> k) & 1: r = add(r, (0,) * k + a[:w - k])[0]
            return r
        x = to_int(a)
        if x is not None and n:
            if op == 14: return const(x // n, w)
            if op == 17: return const(x % n, w)
        if n and n & (n - 1) == 0 and op in (14, 17):
            k = n.bit_length() - 1
            return a[k:] + (0,) * k if op == 14 else a[:k] + (0,) * (w - k)
        return (None,) * w
    def call(self, ins, env, s, depth):
        l = L()
        cv = l.LLVMGetCalledValue(ins)
        args = [self.val(l.LLVMGetOperand(ins, k), env, s) for k in range(l.LLVMGetNumArgOperands(ins))]
        args = [a.bits(s) if isinstance(a, Cmp) else a for a in args]
        if l.LLVMIsAFunction(cv): n = self.mod.name(cv)
        else:
            p = self.val(cv, env, s)
            if not (isinstance(p, Ptr) and str(p.obj).startswith("fn:")): raise AnalysisError("indirect call")
            n = p.obj[3:]
        t = l.LLVMTypeOf(ins)
        if n in self.stubs: return self.stubs[n](self, s, args)
        if n.startswith("llvm.lifetime") or n.startswith("llvm.dbg") or n.startswith("llvm.assume") or n.startswith("llvm.experimental.noalias"): return [(s, None)]
        if n.startswith("llvm.bswap"):
            a = args[0]; r = ()
            for k in range(len(a) // 8 - 1, -1, -1): r += a[8 * k:8 * k + 8]
            return [(s, r)]
        if n.startswith("llvm.bitreverse"): return [(s, tuple(reversed(args[0])))]
        if n.startswith("llvm.fshl") or n.startswith("llvm.fshr"):
            a, b, c = args; w = len(a); k = to_int(c)
            if k is None: return [(s, (None,) * w)]
            k %= w
            cat = b + a
            return [(s, cat[w - k:2 * w - k] if n.startswith("llvm.fshl") else cat[k:k + w])]
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memset") or n.startswith("llvm.memmove") or n in ("memcpy", "memset", "memmove"):
            k = to_int(args[2])
            if k is None: raise AnalysisError("symbolic block length")
            if k:
                self.bounds(args[0], k, s, n)
                if "set" in n:
                    for j in range(k): s.mem[args[0].obj][args[0].off + j] = args[1][:8]
                else:
                    self.bounds(args[1], k, s, n)
                    tmp = [s.mem[args[1].obj].get(args[1].off + j) for j in range(k)]
                    for j in range(k): s.mem[args[0].obj][args[0].off + j] = tmp[j]
            return [(s, args[0])]
        if n.startswith("llvm.u") and (n.startswith("llvm.umin") or n.startswith("llvm.umax")) or n.startswith("llvm.smin") or n.startswith("llvm.smax"):
            x, y = to_int(args[0]), to_int(args[1]); w = len(args[0])
            if x is None or y is None:
                pr = ("s" if "llvm.s" in n else "u") + ("lt" if "min" in n else "gt")
                if y in (0, 1) and pr == "ugt":          # max(x, 0 or 1)
                    parts = [(not tr, st) for tr, st in self.split(Cmp("eq", args[0], const(0, w)), s)]
                else: parts = self.split(Cmp(pr, args[0], args[1]), s)
                return [(st, args[0] if tr else args[1]) for tr, st in parts]
            sg = lambda v: v - (1 << w) if "llvm.s" in n and v >> (w - 1) else v
            return [(s, const((min if "min" in n else max)(x, y, key=sg), w))]
        if n in self.mod.fn and not l.LLVMIsDeclaration(self.mod.fn[n]):
            if depth > 20: raise AnalysisError("recursion")
            return self.run(n, args, s, depth + 1)
        raise AnalysisError(f"call to {n}: no code")


class SymPtr:
    def __init__(self, obj, off, ix, scale): self.obj, self.off, self.ix, self.scale = obj, off, ix, scale

class OutOfBounds(Exception):
    pass

PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
INV = {"eq": "ne", "ne": "eq", "ugt": "ule", "uge": "ult", "ult": "uge", "ule": "ugt", "sgt": "sle", "sge": "slt", "slt": "sge", "sle": "sgt", "bit": "nbit", "nbit": "bit"}

class Cmp:
    """A comparison, kept symbolic so that a partition can learn from it."""
    def __init__(self, p, a, b): self.p, self.a, self.b = PRED.get(p, p), a, b
    def inv(self): return Cmp(INV[self.p], self.a, self.b)
    def _ab(self, s):
        a, b = self.a, self.b
        if isinstance(a, Cmp): a = a.bits(s)
        if isinstance(b, Cmp): b = b.bits(s)
        return s.nb(a), s.nb(b) if b is not None else None
    def bit(self, s):
        """0, 1, an affine form, or None."""
        if isinstance(self.a, Ptr) or isinstance(self.b, Ptr):
            a, b = self.a, self.b
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): return None
            if self.p in ("eq", "ne"):
                if a.obj != b.obj and a.obj is not None and b.obj is not None: return int(self.p == "ne")
                return int((a == b) == (self.p == "eq"))
            if a.obj != b.obj: return None
            x, y = a.off, b.off
            return int({"ugt": x > y, "uge": x >= y, "ult": x < y, "ule": x <= y, "sgt": x > y, "sge": x >= y, "slt": x < y, "sle": x <= y}[self.p])
        a, b = self._ab(s)
        if self.p == "bit": return a[0]
        if self.p == "nbit": return b_xor(a[0], 1)
        w = len(a)
        x, y = to_int(a), to_int(b)
        if self.p in ("eq", "ne"):
            d = [b_xor(p, q) for p, q in zip(a, b)]
            if any(e == 1 for e in d): return int(self.p == "ne")
            d = [e for e in d if e != 0]
            if not d: return int(self.p == "eq")
            if len(set(d)) == 1 and d[0] is not None: return d[0] ^ (self.p == "eq")
            for fs in s.ne:           # known to differ from zero
                if set(s.norm(f) for f in fs) - {0} <= set(d) and None not in d: return int(self.p == "ne")
            return None
        p = self.p
        if p[0] == "s":
            a = a[:-1] + (b_xor(a[-1], 1),); b = b[:-1] + (b_xor(b[-1], 1),)
            p = "u" + p[1:]
        if p in ("ugt", "ule"): a, b = b, a
        r = None          # a < b ?
        for i in range(w - 1, -1, -1):
            d = b_xor(a[i], b[i])
            if d == 0: continue
            if d == 1:
                r = b[i] if r is None else r
                return None if r is None else (r if p in ("ult", "ugt") else b_xor(r, 1))
            # first undetermined bit: decided only if all lower bits agree
            if all(b_xor(x, y) == 0 for x, y in zip(a[:i], b[:i])):
                lt = b_and(b_xor(a[i], 1), b[i])
                return None if lt is None else (lt if p in ("ult", "ugt") else b_xor(lt, 1))
            if p in ("ult", "ugt", "uge", "ule"):
                # sign-bit style test: lower bits of one side saturate
                if all(x == 0 for x in b[:i]) and b[i] == 1 and all(x == 0 for x in b[i + 1:]) and all(x == 0 for x in a[i + 1:]):
                    lt = b_xor(a[i], 1)
                    return lt if p in ("ult", "ugt") else b_xor(lt, 1)
                if all(x == 1 for x in a[:i]) and a[i] == 0:
                    lt = b[i]
                    return lt if p in ("ult", "ugt") else b_xor(lt, 1)
            return None
        r = 0
        return r if p in ("ult", "ugt") else 1
    def bits(self, s): return (self.bit(s),)
    def assume(self, s, truth):
        c = self if truth else self.inv()
        v = c.bit(s)
        if v == 1: return True
        if v == 0: return False
        if v is not None: return s.assume(v ^ 1)
        if c.p in ("eq", "ne") and not isinstance(c.a, Ptr) and not isinstance(c.b, Ptr):
            a, b = c._ab(s)
            d = [b_xor(x, y) for x, y in zip(a, b)]
            if c.p == "eq": return all(s.assume(x) for x in d)
            return s.assume_ne(d)
        if c.p in ("ult", "uge", "ugt", "ule") and not isinstance(c.a, Ptr) and not isinstance(c.b, Ptr):
            a, b = c._ab(s)
            n = to_int(b)
            if n is not None:
                lim = n if c.p in ("ult", "uge") else n + 1          # a < lim  or  a >= lim
                if lim & (lim - 1) == 0 and lim:
                    hi = a[lim.bit_length() - 1:]
                    return all(s.assume(x) for x in hi) if c.p in ("ult", "ule") else s.assume_ne(hi)
        return True


class Vars:
    def __init__(self): self.n = 0; self.names = {}
    def bits(self, name, w):
        r = []
        for i in range(w):
            self.n += 1
            self.names[self.n] = f"{name}[{i}]"
            r.append(1 << self.n)
        return tuple(r)
    def show(self, f):
        if f is None: return "unknown"
        t = (["1"] if f & 1 else []) + [self.names[i] for i in self.names if (f >> i) & 1]
        return " ^ ".join(t[:8]) + (" ..." if len(t) > 8 else "") if t else "0"


def mk(s, name, bytes_):
    """Create a memory object from a list of 8-bit values."""
    s.mem[name] = {i: b for i, b in enumerate(bytes_) if b is not None}
    s.size[name] = len(bytes_)
    return Ptr(name, 0)
