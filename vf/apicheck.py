"""Engine 3: agreement of declarations, decided on the type-checked syntax tree.

C side: clang's syntax tree of one unit that includes every public header, and of every
library source.  Python side: an abstract evaluation of the declarative part of the ctypes
modules (nothing is imported or run).  Layouts are decided by _Static_assert witnesses."""
import ast, json, re, shutil, subprocess, tempfile
from pathlib import Path
from . import core
from .core import AnalysisError, Finding, Result

CLANG = ["clang-18", "-target", "x86_64-linux-gnu", '-D__FILENAME__="f"', "-w"]


class Ob:
    def __init__(self, job): self.r = Result(job); self.seen = set()
    def check(self, rule, ok, where, what, detail=""):
        self.r.obligations += 1
        if ok: self.r.discharged += 1
        elif (rule, where, what) not in self.seen:
            self.seen.add((rule, where, what))
            self.r.findings.append(Finding(rule, where, what, detail, self.r.job))
        if len(self.r.samples) < 12 and rule not in [s.split(":")[0] for s in self.r.samples]: self.r.samples.append(f"{rule}: {where} {what}")


class Tree:
    """Work area with a generated configuration."""
    def __enter__(self):
        self.d = Path(tempfile.mkdtemp(prefix="vf_api_"))
        core.gen_config(self.d)
        c = self.d / "embc/config.h"
        t = c.read_text()
        c.write_text(re.sub(r"(#define\s+EMBC_CSTR_FLOAT_ENABLE)\s+\d+", r"\1 1", t))
        self.inc = [f"-I{core.REPO}/include", f"-I{core.REPO}", f"-I{self.d}", f"-I{core.REPO}/third-party/uthash/include", f"-I{core.REPO}/third-party/uthash/src"]
        self.headers = sorted(str(p.relative_to(core.REPO / "include")) for p in (core.REPO / "include").rglob("*.h"))
        return self
    def __exit__(self, *a): shutil.rmtree(self.d)
    def run(self, args, text=None):
        p = subprocess.run(args, input=text, text=True, capture_output=True)
        return p.returncode, p.stdout, p.stderr
    def ast(self, src, lang="c", std="gnu99"):
        a = [*CLANG, "-x", lang, f"-std={std}", *self.inc, "-fsyntax-only", "-Xclang", "-ast-dump=json"]
        rc, out, err = self.run(a + (["-"] if "\n" in src else [src]), src if "\n" in src else None)
        if rc: raise AnalysisError("clang cannot parse " + src[:80] + "\n" + err[:1500])
        return json.loads(out)


def top(n):
    """Top-level declarations, looking through extern \"C\" blocks."""
    for i in n.get("inner", []):
        if i.get("kind") == "LinkageSpecDecl": yield from top(i)
        else: yield i

def has_body(f): return any(i.get("kind") == "CompoundStmt" for i in f.get("inner", []))


class CTypes:
    """Functions, typedefs, records and enumerators of a translation unit."""
    def __init__(self, root):
        self.fn, self.td, self.rec, self.enum = {}, {}, {}, {}
        for d in top(root):
            k = d.get("kind")
            if k == "FunctionDecl":
                if d["name"] not in self.fn or has_body(d): self.fn[d["name"]] = d
            elif k == "TypedefDecl": self.td[d["name"]] = d["type"]["qualType"]
            elif k == "RecordDecl" and d.get("completeDefinition") and d.get("name"):
                self.rec[d["name"]] = [(f.get("name"), f["type"]["qualType"]) for f in d.get("inner", []) if f.get("kind") == "FieldDecl"]
            elif k == "EnumDecl":
                v = 0
                for e in d.get("inner", []):
                    if e.get("kind") != "EnumConstantDecl": continue
                    x = self.value(e)
                    v = v if x is None else x
                    self.enum[e["name"]] = v; v += 1
    def value(self, e):
        for i in e.get("inner", []):
            if i.get("kind") in ("ConstantExpr", "ImplicitCastExpr", "IntegerLiteral", "ParenExpr") and "value" in i: return int(i["value"])
            x = self.value(i)
            if x is not None: return x
        return None
    def canon(self, t, depth=0):
        """Canonical spelling: typedefs expanded, qualifiers dropped."""
        t = re.sub(r"\b(const|volatile|restrict)\b", "", t).strip()
        t = re.sub(r"\s+", " ", t)
        if depth > 30: return t
        m = re.fullmatch(r"(\w+)((?: ?\*)*)", t)
        if m and m[1] in self.td:
            u = self.canon(self.td[m[1]], depth + 1)
            if "(*)" in u and not m[2].strip(): return u
            return (u + " " + m[2].replace(" ", "")).strip() if m[2] else u
        return t
    def fnptr(self, t):
        m = re.fullmatch(r"(.*?)\(\*\)\((.*)\)", self.canon(t))
        if not m: return None
        a = [] if m[2].strip() in ("", "void") else split_args(m[2])
        return m[1].strip(), a
    def sig(self, f):
        t = f["type"]["qualType"]
        ret = t[:t.index("(")].strip() if "(*" not in t[:t.index(")")] else t
        return ret, [p["type"]["qualType"] for p in f.get("inner", []) if p.get("kind") == "ParmVarDecl"]

def split_args(s):
    r, depth, cur = [], 0, ""
    for c in s:
        if c == "," and not depth: r.append(cur.strip()); cur = ""; continue
        depth += (c == "(") - (c == ")"); cur += c
    return r + [cur.strip()]


def unit(headers): return "".join(f'#include "{h}"\n' for h in headers) + "\n"


def sources():
    cm = (core.REPO / "src/CMakeLists.txt").read_text()
    cm = re.sub(r"#.*", "", cm)
    return sorted({s for s in re.findall(r"[\w/]+\.c\b", cm) if (core.REPO / "src" / s).exists()})


# ------------------------------------------------------------------ public interface
def interface(tier):
    ob = Ob("interface")
    from concurrent.futures import ThreadPoolExecutor
    with Tree() as t:
        hs = [h for h in t.headers if h != "embc/platform/arm.h"]        # needs the other platform's configuration
        def alone(a):
            h, lang, std = a
            rc, _, err = t.run([*CLANG, "-x", lang, f"-std={std}", *t.inc, "-fsyntax-only", "-"], f'#include "{h}"\n#include "{h}"\n')
            return h, lang, rc, "; ".join(l for l in err.splitlines() if "error" in l)[:300]
        with ThreadPoolExecutor(core.jobs_n()) as ex:
            for h, lang, rc, err in ex.map(alone, [(h, l, s) for h in hs for l, s in (("c", "gnu99"), ("c++", "c++11"))]):
                ob.check("header_alone", rc == 0, f"include/{h}", f"can be included alone and twice from {lang}", err)
            C = CTypes(t.ast(unit(hs)))
            X = CTypes(t.ast(unit(hs), "c++", "c++11"))
            public = {n: f for n, f in C.fn.items() if n.startswith("embc_") and f.get("storageClass") != "static" and not f.get("inline")}
            for n in sorted(public):
                f = X.fn.get(n)
                ob.check("c_linkage", f is not None and f.get("mangledName", n) == n, n, "has C linkage when its header is included from C++", f.get("mangledName", "") if f else "not declared")
            srcs = sources()
            units = list(ex.map(lambda s: (s, CTypes(t.ast(str(core.REPO / "src" / s)))), srcs))
        defs = {}
        for s, u in units:
            for n, f in u.fn.items():
                if has_body(f) and f.get("storageClass") != "static" and not f.get("inline"): defs.setdefault(n, []).append((s, u, f))
        for n, f in sorted(public.items()):
            d = defs.get(n, [])
            extern = n in CALLER_PROVIDED
            ob.check("defined_" + n if not d else "defined_once", len(d) == 1 or extern and len(d) <= 1, n,
                     "is declared in a public header and must be defined exactly once in the library", ", ".join(x[0] for x in d) or "no definition")
            for s, u, g in d:
                r0, a0 = C.sig(f); r1, a1 = u.sig(g)
                same = C.canon(r0) == u.canon(r1) and len(a0) == len(a1) and all(C.canon(x) == u.canon(y) for x, y in zip(a0, a1))
                ob.check("same_type", same or not a0 and "()" in f["type"]["qualType"], f"src/{s} ({n})", "is defined with the type its header declares", f"{f['type']['qualType']} / {g['type']['qualType']}")
        ob.r.functions = set(public)
        ob.r.stats = {"engine": "clang syntax tree", "headers": len(hs), "public_functions": len(public), "sources": len(srcs)}
    return ob.r

# declared by the library, provided by the application (assert.h)
CALLER_PROVIDED = {"embc_fatal"}


# ------------------------------------------------------------------ Python bindings
class U: pass
UNK = U()

class T:
    """A ctypes type."""
    def __init__(self, kind, *a): self.kind, self.a = kind, a
    def __repr__(self): return f"{self.kind}{self.a or ''}"

INTS = {"c_uint8": ("u", 1), "c_ubyte": ("u", 1), "c_uint16": ("u", 2), "c_ushort": ("u", 2), "c_uint32": ("u", 4), "c_uint": ("u", 4), "c_uint64": ("u", 8),
        "c_ulonglong": ("u", 8), "c_ulong": ("u", 8), "c_size_t": ("z", 8), "c_ssize_t": ("z", 8), "c_int8": ("i", 1), "c_byte": ("i", 1), "c_int16": ("i", 2),
        "c_short": ("i", 2), "c_int32": ("i", 4), "c_int": ("i", 4), "c_int64": ("i", 8), "c_longlong": ("i", 8), "c_long": ("i", 8), "c_bool": ("b", 1),
        "c_char": ("c", 1)}

class Struct:
    def __init__(self, name, where): self.name, self.where, self.fields = name, where, None

class Func:
    def __init__(self, name, where): self.name, self.where, self.attr = name, where, {}

class Dll: pass


class PyMod:
    """Abstract evaluation of the declarative top level of one module."""
    def __init__(self, world, path):
        self.w, self.path, self.ns = world, path, {}
        self.tree = ast.parse(path.read_text())
        self.block(self.tree.body, self.ns)
    def loc(self, n): return f"{self.path.relative_to(core.REPO)}:{n.lineno}"
    def block(self, body, ns):
        for s in body:
            r = self.stmt(s, ns)
            if r is not None: return r
    def stmt(self, s, ns):
        if isinstance(s, ast.ImportFrom):
            for a in s.names:
                n = a.asname or a.name
                if s.module == "ctypes" or (s.module or "").startswith("ctypes"): ns[n] = self.ctypes(a.name)
                else: ns[n] = self.w.imported(self.path, s.level, s.module, a.name)
        elif isinstance(s, ast.Import):
            for a in s.names: ns[a.asname or a.name.split(".")[0]] = ("ctypes",) if a.name == "ctypes" else UNK
        elif isinstance(s, ast.ClassDef):
            b = [self.ev(x, ns) for x in s.bases]
            if ("prim", "Structure") in b:
                st = Struct(s.name, self.loc(s)); ns[s.name] = st; self.w.structs.append(st)
                loc = dict(ns)
                for x in s.body:
                    if isinstance(x, (ast.Assign, ast.AnnAssign)): self.stmt(x, loc)
                if "_fields_" in loc and loc.get("_fields_") is not ns.get("_fields_"): st.fields = loc["_fields_"]
            else:
                c = {}
                for x in s.body:
                    if isinstance(x, ast.Assign): self.stmt(x, c)
                ns[s.name] = ("class", c)
        elif isinstance(s, ast.FunctionDef): ns[s.name] = ("def", s, ns)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, ns)
            for t in s.targets: self.assign(t, v, ns)
        elif isinstance(s, ast.AnnAssign) and s.value is not None: self.assign(s.target, self.ev(s.value, ns), ns)
        elif isinstance(s, ast.Expr): self.ev(s.value, ns)
        elif isinstance(s, ast.Return): return ("ret", self.ev(s.value, ns) if s.value else None)
        elif isinstance(s, ast.For):
            it = self.ev(s.iter, ns)
            if isinstance(it, dict): it = list(it)
            if isinstance(it, (list, tuple)):
                for x in it:
                    self.assign(s.target, x, ns)
                    r = self.block(s.body, ns)
                    if r is not None: return r
        elif isinstance(s, (ast.Try, ast.With)): return self.block(s.body, ns)
        elif isinstance(s, ast.If):
            c = self.ev(s.test, ns)
            if c is UNK: self.block(s.body, ns); self.block(s.orelse, ns)
            else: return self.block(s.body if c else s.orelse, ns)
    def assign(self, t, v, ns):
        if isinstance(t, ast.Name): ns[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v if isinstance(v, (list, tuple)) and len(v) == len(t.elts) else [UNK] * len(t.elts)
            for a, b in zip(t.elts, vs): self.assign(a, b, ns)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, ns)
            if isinstance(o, Func): o.attr[t.attr] = (v, self.loc(t))
            elif isinstance(o, Struct) and t.attr == "_fields_": o.fields = v
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, ns), self.ev(t.slice, ns)
            if isinstance(o, dict) and isinstance(k, (str, int)): o[k] = v
    def ctypes(self, n):
        if n in INTS: return T("int", *INTS[n])
        if n in ("c_void_p",): return T("ptr", None)
        if n in ("c_char_p",): return T("ptr", T("int", "c", 1))
        if n == "c_float": return T("float", 4)
        if n == "c_double": return T("float", 8)
        if n in ("Structure", "POINTER", "CFUNCTYPE"): return ("prim", n)
        return UNK
    def ev(self, e, ns):
        if isinstance(e, ast.Constant): return e.value
        if isinstance(e, ast.Name):
            return ns[e.id] if e.id in ns else self.ns.get(e.id, UNK)
        if isinstance(e, (ast.List, ast.Tuple)):
            r = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.ev(x.value, ns)
                    if not isinstance(v, (list, tuple)): return UNK
                    r += list(v)
                else: r.append(self.ev(x, ns))
            return r if isinstance(e, ast.List) else tuple(r)
        if isinstance(e, ast.Dict):
            r = {}
            for k, v in zip(e.keys, e.values):
                k = self.ev(k, ns) if k else UNK
                if isinstance(k, (str, int)): r[k] = self.ev(v, ns)
            return r
        if isinstance(e, ast.Attribute):
            o = self.ev(e.value, ns)
            if isinstance(o, Dll): return self.w.func(e.attr, self.loc(e))
            if isinstance(o, PyMod): return o.ns.get(e.attr, UNK)
            if o == ("ctypes",): return self.ctypes(e.attr)
            if isinstance(o, Func) and e.attr in o.attr: return o.attr[e.attr][0]
            if isinstance(o, tuple) and o and o[0] == "class": return o[1].get(e.attr, UNK)
            if isinstance(o, dict) and e.attr in ("items", "keys", "values"): return ("dictm", o, e.attr)
            return UNK
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.ev(e.operand, ns)
            return -v if isinstance(v, int) else UNK
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, ns), self.ev(e.right, ns)
            if isinstance(e.op, ast.Add) and type(a) is type(b) and isinstance(a, (str, int, list, tuple)): return a + b
            return UNK
        if isinstance(e, ast.JoinedStr):
            r = ""
            for v in e.values:
                x = v.value if isinstance(v, ast.Constant) else self.ev(v.value, ns)
                if not isinstance(x, (str, int)): return UNK
                r += str(x)
            return r
        if isinstance(e, ast.Subscript):
            o, k = self.ev(e.value, ns), self.ev(e.slice, ns)
            if isinstance(o, Dll) and isinstance(k, str): return self.w.func(k, self.loc(e))
            try: return o[k]
            except Exception: return UNK
        if isinstance(e, ast.Call): return self.call(e, ns)
        return UNK
    def call(self, e, ns):
        f = self.ev(e.func, ns)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, ns)
                args += list(v) if isinstance(v, (list, tuple)) else [UNK]
            else: args.append(self.ev(x, ns))
        kw = {k.arg: self.ev(k.value, ns) for k in e.keywords if k.arg}
        if f == ("prim", "POINTER") and args: return T("ptr", args[0])
        if f == ("prim", "CFUNCTYPE") and args: return T("fn", args[0], list(args[1:]), self.loc(e))
        if isinstance(e.func, ast.Attribute) and e.func.attr == "LoadLibrary": return Dll()
        n = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ""
        if n in ("CDLL", "PyDLL"): return Dll()
        if n == "getattr" and len(args) >= 2 and isinstance(args[0], Dll) and isinstance(args[1], str): return self.w.func(args[1], self.loc(e))
        if n == "setattr" and len(args) == 3 and isinstance(args[0], Func) and isinstance(args[1], str): args[0].attr[args[1]] = (args[2], self.loc(e)); return None
        if n in ("list", "tuple") and len(args) == 1 and isinstance(args[0], (list, tuple)): return list(args[0]) if n == "list" else tuple(args[0])
        if isinstance(f, tuple) and f and f[0] == "dictm":
            return {"items": lambda d: list(d.items()), "keys": list, "values": lambda d: list(d.values())}[f[2]](f[1])
        if isinstance(f, tuple) and f and f[0] == "def" and self.w.depth < 8:
            d = f[1]
            loc = dict(f[2])
            names = [a.arg for a in d.args.args]
            dflt = d.args.defaults
            for a, x in zip(names[len(names) - len(dflt):], dflt): loc[a] = self.ev(x, ns)
            for a in names: loc.setdefault(a, UNK) if a not in f[2] else loc.__setitem__(a, UNK) if a not in names[len(names) - len(dflt):] else None
            loc.update(zip(names, args))
            if d.args.vararg: loc[d.args.vararg.arg] = tuple(args[len(names):])
            loc.update(kw)
            self.w.depth += 1
            try: r = self.block(d.body, loc)
            finally: self.w.depth -= 1
            return r[1] if r else None
        return UNK


class World:
    def __init__(self, root):
        self.root, self.mods, self.structs, self.funcs, self.depth = root, {}, [], [], 0
    def load(self, p):
        if p not in self.mods:
            self.mods[p] = None
            self.mods[p] = PyMod(self, p)
        return self.mods[p]
    def func(self, n, where):
        f = Func(n, where); self.funcs.append(f); return f
    def imported(self, path, level, module, name):
        parts = (module or "").split(".") if module else []
        if level:
            base = path.parent
            for _ in range(level - 1): base = base.parent
        else:
            base = self.root.parent
        base = base.joinpath(*parts)
        if base.with_suffix(".py").is_file():
            m = self.load(base.with_suffix(".py"))
            return m.ns.get(name, UNK) if m else UNK
        if (base / (name + ".py")).is_file(): return self.load(base / (name + ".py")) or UNK
        return UNK


def describe(t): return "void" if t is None else repr(t)

class Match:
    """Does a ctypes type denote the same object representation and calling convention?"""
    def __init__(self, C): self.C = C
    def ok(self, p, c):
        c = self.C.canon(c)
        if p is UNK: return True
        if c == "void": return p is None
        if p is None: return False
        if self.C.fnptr(c):
            if isinstance(p, T) and p.kind == "fn":
                r, a = self.C.fnptr(c)
                return self.ok(p.a[0], r) and len(a) == len(p.a[1]) and all(self.ok(x, y) for x, y in zip(p.a[1], a))
            return isinstance(p, T) and p.kind == "ptr" and p.a[0] is None
        if c.endswith("*") or c.endswith("]"):
            if not isinstance(p, T) or p.kind not in ("ptr", "fn"): return False
            if p.kind == "fn": return False
            q = p.a[0]
            t = re.sub(r"(\*|\[\d*\])$", "", c).strip()
            if q is None or q is UNK or t == "void": return True
            return self.ok(q, t) or isinstance(q, T) and q.kind == "int" and q.a[1] == 1 and t in ("char", "unsigned char", "signed char")
        if isinstance(p, Struct): return c == "struct " + p.name
        if not isinstance(p, T): return True
        k = INTC.get(c) or (("e", 4) if c.startswith("enum ") else None)
        if c in ("float", "double"): return p.kind == "float" and p.a[0] == (4 if c == "float" else 8)
        if k is None or p.kind != "int": return False
        if p.a[1] != k[1]: return False
        return p.a[0] == k[0] or "z" in p.a[0] and k[1] == 8 or k[0] == "e" or {p.a[0], k[0]} <= {"c", "i"} or {p.a[0], k[0]} <= {"c", "u"} or {p.a[0], k[0]} == {"b", "u"} and False

INTC = {"char": ("c", 1), "signed char": ("i", 1), "unsigned char": ("u", 1), "_Bool": ("b", 1), "bool": ("b", 1), "short": ("i", 2), "unsigned short": ("u", 2),
        "int": ("i", 4), "unsigned int": ("u", 4), "long": ("i", 8), "unsigned long": ("u", 8), "long long": ("i", 8), "unsigned long long": ("u", 8)}


def layout(C, fields):
    """(name, type, offset, size) with natural alignment, or None when a type is unknown."""
    r, off, al = [], 0, 1
    for f in fields:
        if not isinstance(f, tuple) or len(f) != 2: return None
        sa = size_of(C, f[1])
        if sa is None: return None
        s, a = sa
        off = (off + a - 1) // a * a
        r.append((f[0], f[1], off, s)); off += s; al = max(al, a)
    return r, (off + al - 1) // al * al, al

def size_of(C, t):
    if isinstance(t, Struct):
        l = layout(C, t.fields) if isinstance(t.fields, (list, tuple)) else None
        return l and (l[1], l[2])
    if isinstance(t, T):
        if t.kind in ("ptr", "fn"): return 8, 8
        if t.kind == "int": return t.a[1], t.a[1]
        if t.kind == "float": return t.a[0], t.a[0]
    return None


def bindings(tier):
    ob = Ob("bindings")
    root = core.REPO / "py/embc"
    with Tree() as t:
        hs = [h for h in t.headers if h != "embc/platform/arm.h"]
        C = CTypes(t.ast(unit(hs)))
        w = World(root)
        for p in sorted(root.rglob("*.py")):
            if "test" not in p.parts: w.load(p)
        M = Match(C)
        if len(w.funcs) < 10 or len(w.structs) < 3: raise AnalysisError("the Python bindings were not understood")
        for f in w.funcs:
            d = C.fn.get(f.name)
            ob.check("exists", d is not None and d.get("storageClass") != "static", f"{f.where}", f"binds {f.name}, which the library must export")
            if d is None: continue
            ret, args = C.sig(d)
            rt, loc = f.attr.get("restype", (T("int", "i", 4), f.where))
            at, aloc = f.attr.get("argtypes", (UNK, f.where))
            ob.check("result_type", M.ok(rt, ret), loc, f"{f.name} returns {ret}", f"declared as {describe(rt)}")
            if isinstance(at, (list, tuple)):
                ob.check("argument_count", len(at) == len(args), aloc, f"{f.name} takes {len(args)} arguments", f"declared with {len(at)}")
                for k, (a, b) in enumerate(zip(at, args)):
                    ob.check("argument_type", M.ok(a, b), aloc, f"argument {k + 1} of {f.name} is {b}", f"declared as {describe(a)}")
        asserts = []
        for s in w.structs:
            if s.name not in C.rec: continue
            l = layout(C, s.fields) if isinstance(s.fields, (list, tuple)) else None
            if l is None: continue
            cf = C.rec[s.name]
            ob.check("fields", len(l[0]) == len(cf), s.where, f"{s.name} has the {len(cf)} fields of the C structure, in order", f"{[x[0] for x in l[0]]} / {[x[0] for x in cf]}")
            byname = dict(cf)
            for (pn, ty, off, sz), (n, c) in zip(l[0], cf):
                if pn in byname: n, c = pn, byname[pn]      # a field of the same name must be that field
                ob.check("field_type", M.ok(ty, c), s.where, f"{s.name}.{n} is {c}", f"declared as {describe(ty)}")
                asserts.append((s, n, f"offsetof(struct {s.name}, {n}) == {off} && sizeof(((struct {s.name} *) 0)->{n}) == {sz}"))
            asserts.append((s, "size", f"sizeof(struct {s.name}) == {l[1]}"))
        src = unit(hs) + "#include <stddef.h>\n" + "".join(f'_Static_assert({a}, "VFW{k}");\n' for k, (_, _, a) in enumerate(asserts))
        rc, out, err = t.run([*CLANG, "-x", "c", "-std=gnu11", *t.inc, "-fsyntax-only", "-ferror-limit=0", "-"], src)
        bad = {int(x) for x in re.findall(r"VFW(\d+)", "\n".join(l for l in err.splitlines() if "error:" in l))}
        if rc and not bad: raise AnalysisError("layout witness does not compile\n" + err[:800])
        for k, (s, n, a) in enumerate(asserts):
            ob.check("layout", k not in bad, s.where, f"{s.name}.{n} has the offset and size of the C structure", a)
        # error codes
        ec = w.mods.get(root / "ec.py")
        tab = ec.ns.get("name_to_num") if ec else None
        if isinstance(tab, dict):
            want = {n[len("EMBC_ERROR_"):]: v for n, v in C.enum.items() if n.startswith("EMBC_ERROR_") and n != "EMBC_ERROR_CODE_COUNT"}
            for n in sorted(set(want) | set(tab)):
                ob.check("error_code", tab.get(n) == want.get(n), "py/embc/ec.py", f"error code {n} has the library's number", f"{tab.get(n)} / {want.get(n)}")
        fr = w.mods.get(root / "stream/framer.py")
        port0 = fr.ns.get("Port0") if fr else None
        if isinstance(port0, tuple):
            for n, v in port0[1].items():
                c = C.enum.get("EMBC_FRAMER_PORT0_" + n)
                if isinstance(v, int) and c is not None: ob.check("port0_message", v == c, "py/embc/stream/framer.py (Port0)", f"message id {n} is {c}", str(v))
        ob.r.functions = {f.name for f in w.funcs}
        ob.r.stats = {"engine": "clang syntax tree and Python syntax tree", "bound_functions": len(w.funcs), "structures": len(w.structs)}
    return ob.r
