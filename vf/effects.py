"""Engine 4: effects of library functions, decided on the compiler's intermediate representation.

Every library source, and one unit that takes the address of every header inline function and
instantiates the generated maps, is compiled to LLVM IR.  A flow-insensitive dataflow computes
for every value the objects it may point to (a parameter, a global, a local, a fresh heap block,
memory reached through one of these), and a fixpoint over the call graph computes for every
function which parameters and globals it writes, keeps or returns."""
import re
from collections import defaultdict
from concurrent.futures import ThreadPoolExecutor
from . import core, apicheck
from .core import AnalysisError

NAME = r'[%@](?:"[^"]*"|[-\w.$]+)'

class Fn:
    def __init__(self, name, mod, external, params):
        self.name, self.mod, self.external, self.params = name, mod, external, params
        self.key = name if external else f"{mod.src}:{name}"
        self.body, self.cc = [], None
        self.file = mod.src; self.line = 0
        # results
        self.writes = {}       # base -> where
        self.keeps = {}        # base -> where (address stored in memory that outlives the call or is unknown)
        self.returns = set()   # bases
        self.calls = []        # (callee name or None, where, args)

class Mod:
    def __init__(self, src, text):
        self.src = src
        self.fns, self.globals, self.decls, self.loc, self.attrs, self.sub = {}, {}, {}, {}, {}, {}
        self.parse(text)
    def parse(self, text):
        cur = None
        for l in text.splitlines():
            if cur is not None:
                if l == "}": cur = None
                else:
                    s = l.strip()
                    if s and not s.startswith(";"): cur.body.append(s)
                continue
            if l.startswith("define "):
                head = l[:l.rindex("{")]
                m = re.search(r"@(\"[^\"]*\"|[-\w.$]+)\(", head)
                name = m[1].strip('"')
                ps, tail = balanced(head, m.end() - 1)
                cur = Fn(name, self, not re.search(r"\b(internal|private|linkonce_odr|linkonce|available_externally)\b", head[:m.start()]),
                         [p for p in apicheck.split_args(ps) if p.strip()])
                d = re.search(r"!dbg (!\d+)", tail)
                cur.sp = d[1] if d else None
                self.fns[name] = cur
            elif l.startswith("declare "):
                m = re.search(r"@(\"[^\"]*\"|[-\w.$]+)\(", l)
                ps, tail = balanced(l, m.end() - 1)
                self.decls[m[1].strip('"')] = (apicheck.split_args(ps), tail)
            elif l.startswith("@"):
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', l)
                self.globals[m[1].strip('"')] = m[2]
            elif l.startswith("attributes "):
                m = re.match(r"attributes (#\d+) = \{(.*)\}", l)
                self.attrs[m[1]] = m[2]
            else:
                m = re.match(r"(!\d+) = .*?!DILocation\(line: (\d+).*?scope: (!\d+)", l)
                if m: self.loc[m[1]] = (int(m[2]), m[3])
                m = re.match(r"(!\d+) = .*?!DISubprogram\(.*?line: (\d+)", l)
                if m: self.sub[m[1]] = int(m[2])
        for f in self.fns.values(): f.line = self.sub.get(f.sp, 0)
    def where(self, fn, ins):
        m = re.search(r"!dbg (!\d+)", ins)
        line = self.loc.get(m[1], (0, 0))[0] if m else 0
        return f"{self.src}:{line or fn.line} ({fn.name})"

def balanced(s, i):
    """s[i] is '('; the text inside, and the rest."""
    d = 0
    for j in range(i, len(s)):
        d += (s[j] == "(") - (s[j] == ")")
        if not d: return s[i + 1:j], s[j + 1:]
    raise AnalysisError("unbalanced " + s[:80])

def names(s):
    s = re.sub(r'(?:, )?![\w.]+ !\d+', "", s)
    return [n[0] + n[1:].strip('"') for n in re.findall(NAME, s)]

def is_const(g): return bool(re.search(r"\bconstant\b", re.split(r'[\[{@"(]', g)[0])) if g else False


# effects of functions outside the library: (written arguments, returned arguments)
PURE = {"strlen", "strnlen", "strcmp", "strncmp", "memcmp", "strcasecmp", "strncasecmp", "abs", "labs", "bcmp", "toupper", "tolower", "isspace", "isdigit", "isalpha",
        "isalnum", "isxdigit", "isupper", "islower", "isprint", "ispunct", "__ctype_b_loc", "__ctype_toupper_loc", "__ctype_tolower_loc", "strspn", "strcspn", "atoi", "atol",
        "fabs", "floor", "ceil", "round", "lround", "pow", "exp2", "ldexp", "fmin", "fmax", "offsetof"}
WRITES = {"memset": ([0], [0]), "memcpy": ([0], [0]), "memmove": ([0], [0]), "strcpy": ([0], [0]), "strncpy": ([0], [0]), "strcat": ([0], [0]), "strncat": ([0], [0]),
          "stpcpy": ([0], [0]), "memchr": ([], [0]), "strchr": ([], [0]), "strrchr": ([], [0]), "strstr": ([], [0]), "strpbrk": ([], [0]), "strtol": ([1], [], (1, 0)), "strtoul": ([1], [], (1, 0)),
          "strtoll": ([1], [], (1, 0)), "strtoull": ([1], [], (1, 0)), "strtod": ([1], [], (1, 0)), "strtof": ([1], [], (1, 0)), "vsnprintf": ([0], []), "snprintf": ([0], []), "qsort": ([0], []), "bsearch": ([], [1])}
HEAP = {"malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign", "memalign", "strdup", "strndup", "reallocarray", "alloca", "valloc", "asprintf", "vasprintf"}
FRESH = HEAP - {"free"}
ABORT = {"__assert_fail", "abort"}
OUTPUT = {"vprintf", "printf", "puts", "putchar", "fputs", "fprintf", "vfprintf", "fwrite", "putc", "fputc"}     # reads its arguments

def callee(ins):
    """(callee name without sigil or None if indirect, argument texts, text after the arguments)"""
    m = re.search(r"\b(?:call|invoke)\b", ins)
    s = ins[m.end():]
    # the callee is the last name before its argument list; function types may hold parentheses
    for m in re.finditer(r'([%@](?:"[^"]*"|[-\w.$]+))\(', s):
        a, tail = balanced(s, m.end() - 1)
        n = m[1]
        return (n[1:].strip('"') if n[0] == "@" else None), apicheck.split_args(a) if a.strip() else [], tail, n
    return None, [], "", ""


# the code that applications generate with the typed-map macros
TYPED = "\nEMBC_INTMAP_DECLARE(hv_typed, void *)\nEMBC_INTMAP_DEFINE_STRUCT(hv_typed)\nEMBC_INTMAP_DEFINE(hv_typed, void *)\n"

class Library:
    def __init__(self, extra_unit=True, flags=("-O1", "-fno-inline")):
        with apicheck.Tree() as t:
            srcs = apicheck.sources()
            self.headers = [h for h in t.headers if h != "embc/platform/arm.h"]
            self.c = apicheck.CTypes(t.ast(apicheck.unit(self.headers)))
            inl = sorted(n for n, f in self.c.fn.items() if apicheck.has_body(f) and n.startswith("embc_"))
            unit = "#include <stdlib.h>\n" + apicheck.unit(self.headers) + TYPED + "__attribute__((used)) const void * const hv_refs[] = {" + ", ".join(f"(const void *) {n}" for n in inl) + "};\n"
            base = [*apicheck.CLANG, "-std=gnu99", *t.inc, *flags, "-gline-tables-only", "-fno-discard-value-names", "-S", "-emit-llvm", "-o", "-"]
            def one(s):
                rc, out, err = t.run(base + ([str(core.REPO / "src" / s)] if s else ["-x", "c", "-"]), None if s else unit)
                if rc: raise AnalysisError(f"clang cannot compile {s or 'headers'}\n{err[:1500]}")
                return Mod("src/" + s if s else "include", out)
            with ThreadPoolExecutor(core.jobs_n()) as ex: self.mods = list(ex.map(one, srcs + [None]))
        self.inline = inl
        self.fns, self.ext = {}, {}
        for m in self.mods:
            for f in m.fns.values():
                self.fns[f.key] = f
                if f.external: self.ext[f.name] = f
        self.solve()

    def lookup(self, mod, name):
        f = mod.fns.get(name)
        return f if f else self.ext.get(name)

    def gkey(self, mod, name):
        """Identity of a global across units."""
        d = mod.globals.get(name)
        if d is None: return None
        return ("G", name) if not re.match(r"(internal|private)\b", d) else ("G", mod.src + ":" + name)

    def mutable(self):
        r = {}
        for m in self.mods:
            for n, d in m.globals.items():
                if n.startswith("llvm.") or n == "hv_refs" or is_const(d) or re.match(r"external\b", d): continue
                r[self.gkey(m, n)] = (m.src, n, d)
        return r

    # ---------------------------------------------------------------- dataflow
    def solve(self):
        for f in self.fns.values():
            f.val = defaultdict(set); f.content = defaultdict(set)
            for i, p in enumerate(f.params):
                n = names(p)
                if n and n[-1][0] == "%" and "ptr" in p.split()[0]: f.val[n[-1]].add(("P", i))
        self.taken = {}
        for n in range(60):
            changed = False
            for f in self.fns.values(): changed |= self.flow(f)
            if not changed: return
        raise AnalysisError("effect fixpoint did not settle")

    def bases(self, f, text):
        r = set()
        for n in names(text):
            if n[0] == "%": r |= f.val[n]
            else:
                g = n[1:]
                if g in f.mod.globals: r.add(self.gkey(f.mod, g))
        return r

    def flow(self, f):
        ch = [False]
        def add(s, x):
            if not x <= s: s |= x; ch[0] = True
        def put(d, k, w):
            if k not in d: d[k] = w; ch[0] = True
        def through(bs):
            """what may be read from memory of these objects"""
            r = set()
            for b in bs:
                r |= f.content[b] if b[0] in ("A", "H") else set()
                if b[0] not in ("A",): r.add(("L", b if b[0] != "L" else b[1]))
            return r
        def write(ptr, val, w):
            for b in ptr:
                if b[0] == "A": add(f.content[b], val); continue
                put(f.writes, b, w)
                if b[0] == "H": add(f.content[b], val); 
                for v in val: put(f.keeps, v, w)
        f.calls = []
        for ins in f.body:
            m = re.match(r"(%(?:\"[^\"]*\"|[-\w.$]+)) = (.*)", ins)
            dst, rhs = (m[1], m[2]) if m else (None, ins)
            dst = dst and "%" + dst[1:].strip('"')
            op = rhs.split()[0]
            if op in ("tail", "notail", "musttail"): op = "call"
            w = f.mod.where(f, ins)
            if op == "alloca": add(f.val[dst], {("A", dst)}); continue
            if op == "store":
                r = re.sub(r", align.*|, !.*", "", rhs[5:].replace(" volatile", ""))
                i = r.rindex(", ptr ")
                write(self.bases(f, r[i:]), self.bases(f, r[:i]), w); continue
            if op in ("cmpxchg", "atomicrmw"):
                b = self.bases(f, rhs); write(b, set(), w); continue
            if op == "load":
                ty = rhs.split()[2 if "volatile" in rhs.split()[1] else 1]
                b = self.bases(f, rhs[rhs.rindex("ptr "):])
                if ty == "ptr" or ty.startswith(("i64", "<", "{", "[")): add(f.val[dst], {x for x in through(b)} if ty == "ptr" else set())
                continue
            if op in ("icmp", "fcmp", "br", "switch", "unreachable", "resume"): continue
            if op == "ret":
                add(f.returns, self.bases(f, rhs)); continue
            if op == "call":
                name, args, tail, raw = callee(rhs)
                ab = [self.bases(f, a) for a in args]
                f.calls.append((name, w, args, raw))
                if name and name.startswith("llvm."):
                    if re.match(r"llvm\.(memcpy|memmove|memset)", name):
                        write(ab[0], set() if "memset" in name else through(ab[1]), w)
                    elif re.match(r"llvm\.(lifetime|dbg|assume|expect|va_|stack|experimental)", name): pass
                    elif dst: add(f.val[dst], set().union(*ab) if ab else set())
                    continue
                g = self.lookup(f.mod, name) if name else None
                if g:
                    sub = lambda b: (ab[b[1]] if b[1] < len(ab) else set()) if b[0] == "P" else \
                        through(sub(b[1])) if b[0] == "L" else {b} if b[0] == "G" else {("H", w)} if b[0] == "H" else {("U", w)} if b[0] == "U" else set()
                    for b, _ in list(g.writes.items()):
                        for x in sub(b):
                            if x[0] != "A": put(f.writes, x, w)
                    for b, _ in list(g.keeps.items()):
                        for x in sub(b): put(f.keeps, x, w)
                    if dst:
                        for b in list(g.returns): add(f.val[dst], sub(b))
                elif name in PURE or name in ABORT or name in OUTPUT: pass
                elif name in WRITES:
                    wr, re_, *st = WRITES[name]
                    for i in wr:
                        if i < len(ab): write(ab[i], set(), w)
                    for i, j in st: write(ab[i], ab[j], w)
                    if dst:
                        for i in re_:
                            if i < len(ab): add(f.val[dst], ab[i])
                elif name in HEAP:
                    if dst and name in FRESH: add(f.val[dst], {("H", w)})
                else:       # unknown function or the user's callback
                    for i, b in enumerate(ab):
                        ro = "readonly" in args[i] or "readnone" in args[i]
                        for x in b:
                            if name and not ro and x[0] != "A": put(f.writes, x, w)
                            if x[0] == "G" or name: put(f.keeps, x, w)
                    if dst: add(f.val[dst], {("U", w)})
                for a in args:
                    for n in names(a):
                        if n[0] == "@" and self.lookup(f.mod, n[1:]): self.taken[self.lookup(f.mod, n[1:]).key] = w
                continue
            if dst: add(f.val[dst], self.bases(f, rhs))
        return ch[0]

    # ---------------------------------------------------------------- call graph
    def address_taken(self):
        r = {}
        for m in self.mods:
            for n, d in m.globals.items():
                if n == "hv_refs" or n.startswith("llvm."): continue
                for x in names(d):
                    g = self.lookup(m, x[1:])
                    if g: r[g.key] = f"{m.src} (initializer of {n})"
            for f in m.fns.values():
                for ins in f.body:
                    skip = None
                    if re.search(r"\bcall\b", ins): skip = callee(ins[ins.index("call"):])[3]
                    for x in names(ins):
                        if x[0] == "@" and x != skip:
                            g = self.lookup(m, x[1:])
                            if g: r[g.key] = m.where(f, ins)
        return r

    def callers(self):
        r = defaultdict(list)
        for f in self.fns.values():
            for name, w, args, raw in f.calls:
                g = self.lookup(f.mod, name) if name else None
                if g: r[g.key].append((f, w))
        return r

    def entries(self, key, callers, taken):
        """Public functions (and functions handed out by address) from which this function is reached, with a path."""
        seen, todo, out = {key: [key]}, [key], {}
        while todo:
            k = todo.pop(0); f = self.fns[k]
            if f.external or f.mod.src == "include" and f.name in self.inline: out[f.name] = seen[k]
            if not f.external and k in taken: out[f"&{f.name}"] = seen[k]
            for g, w in callers.get(k, []):
                if g.key not in seen: seen[g.key] = [g.key] + seen[k]; todo.append(g.key)
        return out

    # ---------------------------------------------------------------- reports
    def public(self): return {k: f for k, f in self.fns.items() if f.external or f.mod.src == "include" and f.name in self.inline}

    def path(self, f, b):
        """Call path from f to the instruction that has the effect."""
        out, seen = [], set()
        while f and f.key not in seen:
            seen.add(f.key)
            w = f.writes.get(b) or f.keeps.get(b)
            if not w: break
            out.append(w)
            nxt = None
            for name, cw, args, raw in f.calls:
                g = self.lookup(f.mod, name) if name else None
                if g and cw == w and g.key not in seen and (b in g.writes or b in g.keeps): nxt = g; break
            f = nxt
        return " -> ".join(out)

_lib = []
def library():
    if not _lib: _lib.append(Library())
    return _lib[0]

def result(ob, lib, **kw):
    ob.r.functions = set(f.name for f in lib.fns.values())
    ob.r.stats = {"engine": "LLVM IR effect analysis", "functions": len(lib.fns), "call_sites": sum(len(f.calls) for f in lib.fns.values()),
                  "instructions": sum(len(f.body) for f in lib.fns.values()), **kw}
    return ob.r

# the functions that configure the library as a whole
CONFIGURE = {"embc_allocator_set", "embc_log_initialize", "embc_log_finalize", "embc_lib_initialize", "embc_lib_fatal_set", "embc_lib_print_set"}
# C library functions with state of their own
STATEFUL = {"strtok", "rand", "srand", "random", "srandom", "drand48", "lrand48", "localtime", "gmtime", "asctime", "ctime", "setlocale", "tmpnam", "getenv", "putenv", "setenv",
            "strerror", "signal", "atexit", "inet_ntoa", "getopt", "hcreate", "hsearch", "strsignal", "ecvt", "fcvt", "wcstombs", "mblen", "mbtowc", "wctomb"}

def hidden_state(tier):
    lib, ob = library(), apicheck.Ob("state")
    mut = lib.mutable()
    for m in lib.mods:
        for n, d in m.globals.items():
            for x in names(d):
                k = lib.gkey(m, x[1:])
                if k in mut and n not in ("llvm.used", "llvm.compiler.used"): ob.check("state_shared_address", False, f"{m.src} ({x[1:]})", f"the address of variable '{x[1:]}' is stored in '{n}'")
    public, taken = lib.public(), lib.address_taken()
    for k, f in sorted(lib.fns.items()):
        entry = k in public or k in taken
        for g, (src, n, d) in sorted(mut.items()):
            if f.name in CONFIGURE or f.name.split(".")[0] in CONFIGURE: continue
            if entry: ob.check("state_written", g not in f.writes, f"{f.mod.src} ({f.name})", f"must not write the variable '{n}' that all instances share", lib.path(f, g))
            ob.check("state_escapes", g not in f.keeps and not (entry and g in f.returns), f"{f.mod.src} ({f.name})", f"must not hand out the variable '{n}' that all instances share", lib.path(f, g))
        for name, w, args, raw in f.calls:
            if name: ob.check("state_of_c_library", name not in STATEFUL, w, f"must not use {name}(), which keeps hidden state")
    return result(ob, lib, mutable_globals=[f"{s}: {n}" for s, n, d in mut.values()], configuration_functions=sorted(CONFIGURE))

# functions that are documented, by name or text, to allocate or to release
ALLOCATES = {"embc_alloc", "embc_alloc_clr", "embc_lib_alloc", "embc_buffer_allocator_new", "embc_evm_allocate", "embc_evm_schedule", "embc_hashmap_new", "embc_hashmap_put",
             "embc_intmap_new", "embc_intmap_put", "embc_intmap_iterator_new", "embc_strmap_new", "embc_strmap_put", "hv_typed_new", "hv_typed_put", "hv_typed_iterator_new"}
RELEASES = {"embc_free", "embc_lib_free", "embc_evm_free", "embc_hashmap_free", "embc_hashmap_put", "embc_hashmap_remove", "embc_intmap_free", "embc_intmap_put",
            "embc_intmap_remove", "embc_intmap_iterator_free", "embc_strmap_free", "embc_strmap_put", "embc_strmap_remove", "hv_typed_free", "hv_typed_put", "hv_typed_remove",
            "hv_typed_iterator_free", "embc_hashmap_iterator_free"}

def heap(tier):
    lib, ob = library(), apicheck.Ob("heap")
    callers, taken, public = lib.callers(), lib.address_taken(), lib.public()
    bad = {}
    sites = 0
    for f in lib.fns.values():
        for name, w, args, raw in f.calls:
            prim = name in ("embc_alloc", "embc_free", "embc_alloc_clr") and lib.lookup(f.mod, name)
            if name not in HEAP and not prim: continue
            sites += 1
            rel = name in ("free", "embc_free")
            for e, p in lib.entries(f.key, callers, taken).items():
                if e.split(".")[0] not in (RELEASES if rel else ALLOCATES): bad.setdefault(e, []).append((rel, w, p))
            if name in HEAP:
                ob.check(f"system_heap_{name}_{f.mod.src}", False, w,
                         f"uses the system's {name}() rather than the allocator that the application set")
            elif prim: ob.check("application_allocator", True, w, f"uses {name}()")
    for k, f in sorted(lib.fns.items()):
        if k in public or k in taken:
            b = bad.get(f.name if k in public else "&" + f.name, [])
            ob.check("no_heap", not b, f"{f.mod.src} ({f.name})", "must not " + ("release" if b and b[0][0] else "allocate") + " heap memory",
                     "; ".join(f"{w} via {' -> '.join(p)}" for _, w, p in b[:3]))
    # the heap functions' addresses may only be handed to the allocator
    for f in lib.fns.values():
        for ins in f.body:
            skip = callee(ins[ins.index("call"):])[3] if re.search(r"\bcall\b", ins) else None
            for x in names(ins):
                if x[0] == "@" and x[1:] in HEAP and x != skip:
                    ob.check("heap_function_address", re.search(r"@embc_allocator_set\(", ins) is not None or f.name == "embc_lib_initialize", f.mod.where(f, ins), f"takes the address of {x[1:]}()")
    return result(ob, lib, heap_call_sites=sites)

OUT_ALLOWED = {"src/lib.c": {"vprintf"}}
def bounded(tier):
    lib, ob = library(), apicheck.Ob("bounded")
    graph = {k: {lib.lookup(f.mod, n).key for n, w, a, r in f.calls if n and lib.lookup(f.mod, n)} for k, f in lib.fns.items()}
    for k, f in sorted(lib.fns.items()):
        # recursion
        seen, todo, cyc = {}, [(n, [k]) for n in graph[k]], None
        while todo and not cyc:
            n, p = todo.pop()
            if n == k: cyc = p + [n]; break
            if n in seen: continue
            seen[n] = 1
            todo += [(x, p + [n]) for x in graph[n]]
        ob.check("recursion", not cyc, f"{f.mod.src}:{f.line} ({f.name})", "must not call itself", " -> ".join(cyc or []))
        for ins in f.body:
            m = re.search(r"= alloca ([^,]+)(?:, (i\d+) ([^,]+))?,", ins)
            if m: ob.check("stack_size", not m[2] or re.fullmatch(r"\d+", m[3]), f.mod.where(f, ins), "must not use a stack frame whose size depends on data")
            if re.search(r"\bcall\b.*\basm\b", ins): ob.check("assembly", False, f.mod.where(f, ins), "inline assembly is not examined")
        for name, w, args, raw in f.calls:
            if not name or name.startswith("llvm.") or lib.lookup(f.mod, name): continue
            ok = name in PURE or name in WRITES or name in HEAP or name in ABORT or name in OUT_ALLOWED.get(f.mod.src, ())
            ob.check("outside_call", ok, w, f"calls {name}(), which may block or perform input or output")
    return result(ob, lib)

KEEPERS = {("embc_stream_source_configure", 1)}        # documented to use the caller's block until it is closed
QUERIES = {"embc_hashmap_length", "embc_hashmap_get", "embc_intmap_length", "embc_intmap_get", "embc_strmap_length", "embc_strmap_get", "embc_list_index", "embc_list_index_of",
           "embc_list_is_empty", "embc_list_peek_head", "embc_list_peek_tail", "embc_list_length", "embc_list_contains", "embc_evm_time_next", "embc_evm_interval_next",
           "embc_pool_is_empty", "embc_framer_validate", "embc_buffer_length", "embc_buffer_capacity", "embc_buffer_cursor_get", "embc_buffer_write_remaining", "embc_buffer_read_remaining",
           "embc_stream_sink_get_consumer", "embc_stream_source_get_producer", "embc_cstr_casecmp", "embc_cstr_starts_with", "embc_buffer_allocator_instance_size",
           "embc_mblock_instance_size", "embc_pool_instance_size", "embc_object_pool_instance_size"}

def root(b):
    while b[0] == "L": b = b[1]
    return b

def borrowed(tier):
    lib, ob = library(), apicheck.Ob("borrowed")
    n = 0
    for k, f in sorted(lib.public().items()):
        g = lib.c.fn.get(f.name)
        if not g: continue
        ps = [p for p in g.get("inner", []) if p.get("kind") == "ParmVarDecl"]
        if len(ps) != len(f.params): ps = []
        outs = set()
        for i, p in enumerate(ps):
            m = re.match(r"(.*)\*\s*(?:const|restrict)?\s*$", p["type"]["qualType"])
            if not m: continue
            inner, where = m[1].strip(), f"{f.mod.src}:{f.line} ({f.name})"
            const = inner.endswith("const") if "*" in inner else bool(re.search(r"\bconst\b", inner))
            out = not const and (inner.endswith("*") or re.fullmatch(r"(u?int\d+_t|embc_size_t|int|bool|_Bool|float)", inner)) and (f.name, i) not in STORAGE
            n += 1
            if const:
                b = ("P", i)
                ob.check("input_written", b not in f.writes, where, f"must not write its const argument '{p.get('name')}'", lib.path(f, b))
            if out: outs.add(i)
            if (const or out or (f.name, i) in COPIED) and (f.name, i) not in KEEPERS:
                b = ("P", i)
                ob.check("argument_kept", b not in f.keeps, where, f"must not keep the address of its argument '{p.get('name')}' after it returns", lib.path(f, b))
        if f.name in QUERIES:
            for b in f.writes:
                r = root(b)
                if r[0] == "P" and (b[0] == "L" or r[1] not in outs) or r[0] == "G":
                    ob.check("query_writes", False, f"{f.mod.src}:{f.line} ({f.name})", "must not change what it is asked about", lib.path(f, b))
            ob.check("query_writes", True, f.name, "changes nothing")
            ob.check("query_keeps", not [b for b in f.keeps if b[0] == "P"], f"{f.mod.src}:{f.line} ({f.name})", "must not keep an argument")
    for q in sorted(QUERIES):
        ob.check("query_exists", q in {f.name for f in lib.fns.values()}, q, "query function is present")
    return result(ob, lib, pointer_arguments=n)
# memory that the caller hands over for the life of the instance
STORAGE = {("embc_stream_sink_initialize", 1), ("embc_stream_sink_receive", 1), ("embc_stream_source_initialize", 1)}
# structures that are copied
COPIED = {("embc_framer_initialize", 2), ("embc_framer_register_port_callbacks", 2)}
