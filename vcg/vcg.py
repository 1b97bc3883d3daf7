"""A verification-condition generator for the C functions of /repo.

The input is clang's AST of the repository's own source files, read on every
run; nothing of a function is dropped or rewritten. Each function named by a
specification is executed symbolically path by path; loops are cut by invariants
(the largest inductive subset of the specification's candidate templates, over
whatever locals the code has), calls use the callee's contract or, where it has
none, its body. Every obligation goes to z3, and to cvc5 if z3 gives up.

Memory: one map per scalar record field and one per width of scalar reached
through a plain pointer, all indexed by byte address (real offsets). Assumed:
memory is well typed, i.e. two objects of one record type are the same or do not
overlap, and a scalar field is only reached as that field. Machine integers have
their exact ranges: unsigned arithmetic wraps, signed overflow is an obligation.
Loops are shown partially correct; termination is only shown where stated.
"""
import json, os, re, subprocess, sys, tempfile, time, concurrent.futures
import z3
from z3 import And, Or, Not, Implies, If, Int, IntVal, Select, Store, ForAll, Exists, BoolVal, Array, IntSort, Bool, Function, BoolSort

z3.set_param("smt.random_seed", 1)

RLIM = 3000
JOBS = 4

class Unsupported(Exception):
    pass

def fresh_counter():
    n = [0]
    def f(p="v"):
        n[0] += 1
        return "%s!%d" % (p, n[0])
    return f
fresh = fresh_counter()
def FInt(p="v"): return Int(fresh(p))
def FArr(p="m"): return Array(fresh(p), IntSort(), IntSort())
A = IntSort()
band = Function("band", A, A, A)            # bitwise and
ok0 = Function("ok0", A, A, BoolSort())     # caller's accessible ranges: (address, size)

# ------------------------------------------------------------------ AST

class TU:
    """Clang's AST of one source file."""
    def __init__(self, path, defs=("-D_DEBUG",), repo="/repo"):
        self.path = path
        p = subprocess.run(["clang", "-fsyntax-only", "-Wno-everything", "-D_GNU_SOURCE", "-iquote", repo, *defs, "-Xclang", "-ast-dump=json", path],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise Unsupported("clang: " + p.stderr.decode(errors="replace")[-500:])
        self.root = json.loads(p.stdout)
        self.funcs, self.fields, self.records, self.vars, self.typedefs, self.enums = {}, {}, {}, {}, {}, {}
        self.rec_names, self.enum_names = {}, {}
        self.file = ""
        for d in self.root["inner"]:
            l = d.get("loc", {}); l = l.get("expansionLoc", l)
            self.file = l.get("file", self.file)
            self.top(d)

    def top(self, d):
        k = d.get("kind")
        if k == "FunctionDecl":
            body = [x for x in d.get("inner", []) if x.get("kind") == "CompoundStmt"]
            if body or d["name"] not in self.funcs:
                self.funcs[d["name"]] = d
        elif k == "RecordDecl":
            self.record(d)
        elif k == "VarDecl":
            self.vars[d["id"]] = d
        elif k == "TypedefDecl":
            self.typedefs[d["name"]] = d["type"].get("desugaredQualType", d["type"]["qualType"])
            # typedef struct {...} name: give the anonymous record the typedef's name
            def find(n):
                if "ownedTagDecl" in n: return n["ownedTagDecl"]["id"]
                if n.get("kind") == "RecordType" and "decl" in n: return n["decl"]["id"]
                for x in n.get("inner", []):
                    r = find(x)
                    if r: return r
                return None
            rid = find(d)
            if rid and rid in self.records and not self.records[rid]["name"]:
                self.records[rid]["name"] = d["name"]; self.records[rid]["tag"] = d["name"]
                self.rec_names.setdefault(d["name"], rid); self.name_nested(rid, d["name"])
        elif k == "EnumDecl":
            v = -1
            for e in d.get("inner", []):
                if e["kind"] != "EnumConstantDecl": continue
                c = self.const(e)
                v = c if c is not None else v + 1
                self.enums[e["id"]] = v
                self.enum_names[e["name"]] = v

    def const(self, e):
        for x in e.get("inner", []):
            if x.get("kind") == "ConstantExpr": return int(x["value"])
            c = self.const(x)
            if c is not None: return c
        return None

    def record(self, d):
        if d.get("tagUsed") not in ("struct", "union"): return
        if not d.get("completeDefinition"): return
        name = d.get("name")
        fs = []
        last = None
        for x in d.get("inner", []):
            if x["kind"] == "RecordDecl":
                self.record(x); last = x["id"]
            elif x["kind"] == "FieldDecl":
                f = {"name": x.get("name", ""), "type": x["type"].get("desugaredQualType", x["type"]["qualType"]),
                     "rec": d["id"], "sub": last, "id": x["id"], "bits": bool(x.get("isBitfield"))}
                fs.append(f)
                self.fields[x["id"]] = f
                if last in self.records and not self.records[last]["name"] and f["name"] and ("unnamed" in f["type"] or "anonymous" in f["type"]):
                    self.records[last]["alias"] = f["name"]
            elif x["kind"] == "IndirectFieldDecl":
                pass
        self.records[d["id"]] = {"name": name, "tag": d["tagUsed"] + " " + name if name else None, "union": d["tagUsed"] == "union", "fields": fs, "id": d["id"], "align": max([self.const(x) or 0 for x in d.get("inner", []) if x["kind"] == "AlignedAttr"] or [0]), "system": self.file.startswith("/usr")}
        if name:
            self.rec_names[name] = d["id"]
            self.name_nested(d["id"], name)
    def name_nested(self, rid, name):
        """unnamed records of named fields are called after the field"""
        for f in self.records[rid]["fields"]:
            sub = self.records.get(f["sub"])
            if sub is not None and not sub["name"] and sub.get("alias") == f["name"]:
                sub["name"] = name + "." + f["name"]; self.rec_names[sub["name"]] = sub["id"]
                self.name_nested(sub["id"], sub["name"])

class Types:
    """Sizes and offsets, obtained by compiling a program with gcc."""
    def __init__(self, tu, repo="/repo"):
        self.tu = tu; self.repo = repo; self.cache = {}; self.off = {}
        self.defs = ["-D_DEBUG", "-D_GNU_SOURCE"]
        self.layout([r for r in tu.records.values() if r["tag"] and (not r["system"] or r["name"] in ("pthread_mutex_t", "stat"))])

    def layout(self, recs):
        lines = ['#include "%s"' % self.tu.path, "#include <stddef.h>", "#include <stdio.h>", "int main(void){"]
        for r in recs:
            if r["name"].startswith("_") or r["name"].startswith("__"): continue
            t = r["tag"]
            lines.append('printf("S %s %%zu\\n", sizeof(%s));' % (r["id"], t))
            def walk(rec, path, base=""):
                for f in rec["fields"]:
                    if f["bits"]: continue
                    if f["name"]:
                        lines.append('printf("O %s %%zu\\n", offsetof(%s, %s)%s);' % (f["id"], t, path + f["name"], " - offsetof(%s, %s)" % (t, base) if base else ""))
                        sub = self.tu.records.get(f["sub"])
                        if sub is not None and not sub["tag"] and sub["id"] != rec["id"] and ("unnamed" in f["type"] or "anonymous" in f["type"]):
                            walk(sub, path + f["name"] + ".", path + f["name"])
                    else:
                        sub = self.tu.records.get(f["sub"])
                        if sub is not None: walk(sub, path, base)
            walk(r, "")
        lines.append("return 0;}")
        d = tempfile.mkdtemp()
        try:
            c = os.path.join(d, "o.c"); open(c, "w").write("\n".join(l for l in lines))
            exe = os.path.join(d, "o")
            p = subprocess.run(["gcc", "-w", *self.defs, "-iquote", self.repo, "-c", c, "-o", exe + ".o"], stderr=subprocess.PIPE)
            # linking is not needed: read the constants by running with stubs is more work, so link all of /repo lazily
            if p.returncode: raise Unsupported("layout: " + p.stderr.decode()[-400:])
            p = subprocess.run(["gcc", "-w", exe + ".o", "-o", exe, "-Wl,--unresolved-symbols=ignore-all", "-lpthread", "-lm"], stderr=subprocess.PIPE)
            if p.returncode: raise Unsupported("layout: " + p.stderr.decode()[-400:])
            o = subprocess.run([exe], stdout=subprocess.PIPE).stdout.decode()
        finally:
            import shutil; shutil.rmtree(d)
        self.size = {}
        for l in o.split("\n"):
            w = l.split()
            if len(w) == 3 and w[0] == "S": self.size[w[1]] = int(w[2])
            if len(w) == 3 and w[0] == "O": self.off[w[1]] = int(w[2])

INT = {"char": (1, True), "signed char": (1, True), "unsigned char": (1, False), "short": (2, True), "unsigned short": (2, False),
       "int": (4, True), "unsigned int": (4, False), "long": (8, True), "unsigned long": (8, False), "long long": (8, True),
       "unsigned long long": (8, False), "_Bool": (1, False), "bool": (1, False)}
TD = {"uint8_t": "unsigned char", "byte": "unsigned char", "int8_t": "signed char", "uint16_t": "unsigned short", "int16_t": "short",
      "uint32_t": "unsigned int", "int32_t": "int", "uint64_t": "unsigned long", "int64_t": "long", "size_t": "unsigned long", "ssize_t": "long", "__int64_t": "long", "__uint32_t": "unsigned int", "__uint8_t": "unsigned char", "__uint64_t": "unsigned long", "__int32_t": "int", "__uint16_t": "unsigned short", "__int16_t": "short"}

def norm(t):
    t = re.sub(r"\b(const|volatile|restrict|__restrict|struct|union)\b", "", t)
    t = re.sub(r"\s+", " ", t).strip()
    t = re.sub(r"\s*\*", "*", t)
    return t.strip()

class T:
    """int(size, signed) | ptr(to) | rec(id) | arr(of, n) | func | void"""
    def __init__(self, k, **kw): self.k = k; self.__dict__.update(kw)
    def __repr__(self): return "T(%s %s)" % (self.k, {x: y for x, y in self.__dict__.items() if x != "k"})

class Prog:
    """Types and functions of one translation unit plus bodies of other files."""
    def __init__(self, path, others=(), repo="/repo"):
        self.tu = TU(path)
        self.types = Types(self.tu)
        self.others = [TU(o) for o in others]
        self.tcache = {}
        self.views = {}     # a record whose bytes are always used as those of another one

    def parse(self, s):
        s = norm(s)
        if s in self.tcache: return self.tcache[s]
        r = self.parse_(s)
        self.tcache[s] = r
        return r

    def parse_(self, s, depth=0):
        if depth > 12: raise Unsupported("type " + s)
        s = norm(s)
        m = re.match(r"^(.*?)\s*\[(\d*)\]((?:\[\d+\])*)$", s)
        if m: return T("arr", of=self.parse_(m.group(1) + m.group(3), depth + 1), n=int(m.group(2) or 0))
        if s.endswith("*"):
            return T("ptr", to=s[:-1].strip())
        if re.search(r"\(\*[^)]*\)\s*\(", s): return T("ptr", to="func " + s)
        if "(" in s and "unnamed" not in s and "anonymous" not in s: return T("func", s=s)
        if s == "void": return T("void")
        if s in INT: z, g = INT[s]; return T("int", size=z, signed=g, bool=(s in ("_Bool", "bool")))
        if s in TD: return self.parse_(TD[s], depth + 1)
        if s in self.tu.rec_names: return T("rec", id=self.tu.rec_names[s])
        for r in self.tu.records.values():
            if r["name"] == s: return T("rec", id=r["id"])
        if s.startswith("enum "): return T("int", size=4, signed=False, bool=False)
        if s in self.tu.typedefs and norm(self.tu.typedefs[s]) != s: return self.parse_(self.tu.typedefs[s], depth + 1)
        if s in ("float", "double", "long double"): return T("float", size={"float": 4, "double": 8}.get(s, 16))
        return T("opaque", s=s)

    def key(self, typename, field):
        """the memory map of a field, and the offset of its record within typename"""
        t = self.parse(typename)
        def find(t, base):
            for f in self.tu.records[t.id]["fields"]:
                ft = self.parse(f["type"]) if not (f["sub"] and ("unnamed" in f["type"] or "anonymous" in f["type"])) else T("rec", id=f["sub"])
                if f["name"] == field: return ("f", self.tu.records[t.id]["name"], field)
                if not f["name"] and ft.k == "rec":
                    r = find(ft, base)
                    if r: return r
        r = find(t, 0)
        if r is None: raise Unsupported("%s has no field %s" % (typename, field))
        return r
    def offset(self, typename, field):
        t = self.parse(typename)
        for f in self.tu.records[t.id]["fields"]:
            if f["name"] == field: return self.types.off[f["id"]]
        raise Unsupported("%s has no field %s" % (typename, field))

    def sizeof(self, t):
        if t.k == "int" or t.k == "float": return t.size
        if t.k == "ptr": return 8
        if t.k == "arr": return t.n * self.sizeof(t.of)
        if t.k == "rec":
            if t.id in self.types.size: return self.types.size[t.id]
            raise Unsupported("size of record " + str(self.tu.records[t.id]["name"]))
        if t.k == "void" or t.k == "func": return 1
        raise Unsupported("size of %r" % t)

    def etype(self, e):
        t = e["type"]
        q = t.get("desugaredQualType", t["qualType"])
        r = self.parse(q)
        if r.k == "opaque" and "desugaredQualType" in t: r2 = self.parse(t["qualType"]); r = r2 if r2.k != "opaque" else r
        return r

    def body(self, name):
        for tu in [self.tu] + self.others:
            d = tu.funcs.get(name)
            if d and any(x.get("kind") == "CompoundStmt" for x in d.get("inner", [])):
                return d
        return None

    def union(self, rec):
        """(whole, part): a union of one integer and a record of smaller unsigned ones that are its low bytes"""
        if not rec["union"]: return None
        if "_u" in rec: return rec["_u"]
        r = None
        if len(rec["fields"]) == 2:
            ts = [self.parse(f["type"]) if not (f["sub"] and ("unnamed" in f["type"] or "anonymous" in f["type"])) else T("rec", id=f["sub"]) for f in rec["fields"]]
            for i, j in ((0, 1), (1, 0)):
                if ts[i].k == "int" and ts[j].k == "rec":
                    off, ok = 0, True
                    for f in self.tu.records[ts[j].id]["fields"]:
                        ft = self.parse(f["type"])
                        if ft.k != "int" or ft.signed or self.types.off.get(f["id"]) != off: ok = False; break
                        off += ft.size
                    if ok and off <= ts[i].size: r = (rec["fields"][i], ts[i], self.tu.records[ts[j].id])
        rec["_u"] = r
        return r
    def leafs(self, t, base=0, recname=None):
        """scalar fields of a record: (key, offset of the base of its record, type)"""
        out = []
        rec = self.tu.records[t.id]
        if rec["name"] in self.views: return self.leafs(self.parse(self.views[rec["name"]]), base)
        u = self.union(rec)
        if u:
            return self.leafs(T("rec", id=u[2]["id"]), base) + [(("f", rec["name"], u[0]["name"] + "#rest"), base, u[1])]
        for f in rec["fields"]:
            ft = self.parse(f["type"]) if f["sub"] is None or "unnamed" not in f["type"] else T("rec", id=f["sub"])
            if ft.k == "rec":
                out += self.leafs(ft, base + self.types.off[f["id"]])
            elif ft.k == "arr":
                out.append((None, base + self.types.off[f["id"]], ft))
            else:
                out.append((("f", rec["name"], f["name"]), base, ft))
        return out

# ------------------------------------------------------------------ state

class State:
    __slots__ = ("env", "mem", "path", "blocks", "freed", "ghost", "trace", "written")
    def __init__(self):
        self.env = {}; self.mem = {}; self.path = []; self.blocks = []; self.freed = []; self.ghost = {}; self.trace = []; self.written = set()
    def copy(self):
        s = State()
        s.env = dict(self.env); s.mem = dict(self.mem); s.path = list(self.path); s.blocks = list(self.blocks)
        s.freed = list(self.freed); s.ghost = dict(self.ghost); s.trace = list(self.trace); s.written = set(self.written)
        return s

class Obl:
    def __init__(self, fn, kind, loc, path, goal, trace):
        self.fn, self.kind, self.loc, self.path, self.goal, self.trace = fn, kind, loc, path, goal, trace
        self.result = None; self.by = None; self.t = 0

class C:
    """What a contract sees."""
    def __init__(self, vc, args, old, st=None, ret=None, g=None):
        self.vc, self.args, self.old, self.st, self.ret = vc, args, old, st, ret
        self.g = g if g is not None else {}
    def __getitem__(self, i): return self.args[i]

class Contract:
    """pre(c), post(c): lists of (label, formula); mods(c): {key: predicate(addr)}"""
    def __init__(self, name, pre=None, post=None, mods=None, ghosts=None, loop=None, trusted=False, inline=(), frees=None):
        self.name = name
        self.pre = pre or (lambda c: [])
        self.post = post or (lambda c: [])
        self.mods = mods or (lambda c: {})
        self.ghosts = ghosts or (lambda vc: {})
        self.loop = loop            # loop(c, st, scope) -> [(label, f(st) -> Bool)]
        self.trusted = trusted

def has_if(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) or z3.is_quantifier(x): return True
        todo += x.children()
    return False
def FA(vs, body, *pats):
    """for all, with triggers where these are allowed to be triggers"""
    pats = [p for p in pats if not has_if(p)]
    return ForAll(vs, body, patterns=pats) if pats else ForAll(vs, body)

class VC:
    def __init__(self, prog, contracts=(), axioms=(), builtins=None, timeout=10, noinline=()):
        self.p = prog
        self.contracts = {c.name: c for c in contracts}
        self.axioms = list(axioms)
        self.obls = []
        self.strings = False
        self.quiet = 0
        self.builtins = {}
        self.builtins.update(BUILTINS)
        if builtins: self.builtins.update(builtins)
        self.timeout = timeout
        self.cur = None
        self.depth = 0
        self.covers = []
        self.inlined = set()
        self.called = set()
        self.nchecks = 0
        self.invs = []
        self.gaddr = {}
        self.fns = {}
        self.faddr = {}
        self.exec_budget = 20000
        self.triv = 0
        self.probing = 0
        self.lemmas = []
        self.retry = 0      # more effort (times the first) for the loop invariants
        self.onload = {}    # what happens before a (volatile) field is read

    # ---------- memory
    def key_of(self, rec, field): return ("f", rec, field)
    def arr(self, st, key):
        if key not in st.mem:
            # maps not yet seen: one initial map for each key, shared by all paths
            st.mem[key] = Array("mem0_" + "_".join(str(x) for x in key), IntSort(), IntSort())
        return st.mem[key]
    def get(self, st, key, addr): return Select(self.arr(st, key), addr)
    def F(self, st, rec, field, addr): return self.get(st, ("f", rec, field), addr)
    def range(self, t, v):
        if t.k == "ptr": return And(v >= 0, v < 2**63)
        if getattr(t, "bool", False): return And(v >= 0, v <= 1)
        if t.signed: return And(v >= -(2**(8*t.size-1)), v < 2**(8*t.size-1))
        return And(v >= 0, v < 2**(8*t.size))
    def okf(self, st, a, n):
        alts = [ok0(a, n)]
        for (b, ln) in st.blocks: alts.append(And(b <= a, a + n <= b + ln))
        g = Or(*alts) if len(alts) > 1 else alts[0]
        for (b, ln) in st.freed: g = And(g, Or(a + n <= b, b + ln <= a))
        return g
    def load(self, st, lv, t, e=None):
        k = lv[0]
        if k == "var": return st.env[lv[1]]
        if k == "mem":
            key, a, va, vs = lv[1], lv[2], lv[3], lv[4]
            if key[1] in self.p.views: raise Unsupported("read of a field of %s" % key[1])
            if key in self.onload: self.onload[key](self, st, a, e)
            self.oblige(st, self.okf(st, va, IntVal(vs)), "read", e)
            v = self.get(st, key, a)
            if key[0] == "t" and t.k == "int":
                st.path.append(And(v >= 0, v < 2**(8*t.size)))
                if t.signed:
                    s = z3.simplify(v)
                    v = If(v >= 2**(8*t.size-1), v - 2**(8*t.size), v)
            elif t.k in ("int", "ptr"):
                st.path.append(self.range(t, v))
            return v
        if k == "union":
            rec, a, ft = lv[1:]
            self.oblige(st, self.okf(st, a, IntVal(ft.size)), "read", e)
            return self.union_get(st, rec, a, ft)
        raise Unsupported("load " + k)
    def store(self, st, lv, t, v, e=None):
        k = lv[0]
        if k == "var": st.env[lv[1]] = v; return
        if k == "mem":
            key, a, va, vs = lv[1], lv[2], lv[3], lv[4]
            self.oblige(st, self.okf(st, va, IntVal(vs)), "write", e)
            if key[1] in self.p.views: # the other record's fields become unknown
                for k2, off, _ in self.p.leafs(self.p.parse(self.p.views[key[1]])):
                    st.mem[k2] = Store(self.arr(st, k2), a + off, FInt("bytes")); st.written.add(k2)
                return
            if key[0] == "t" and t.k == "int" and t.signed:
                v = If(v < 0, v + 2**(8*t.size), v)
            st.mem[key] = Store(self.arr(st, key), a, v)
            st.written.add(key)
            return
        if k == "union":
            rec, a, ft = lv[1:]
            self.oblige(st, self.okf(st, a, IntVal(ft.size)), "write", e)
            self.union_set(st, rec, a, ft, v)
            return
        raise Unsupported("store " + k)
    def union_parts(self, rec):
        u = self.p.union(rec); off = 0; out = []
        for f in u[2]["fields"]:
            z = self.p.parse(f["type"]).size
            out.append((("f", u[2]["name"], f["name"]), off, z)); off += z
        if off < u[1].size: out.append((("f", rec["name"], u[0]["name"] + "#rest"), off, u[1].size - off))
        return out
    def union_get(self, st, rec, a, ft):
        v = 0
        for key, off, z in self.union_parts(rec):
            x = self.get(st, key, a)
            st.path.append(And(x >= 0, x < 2**(8*z)))
            v = v + x * 2**(8*off)
        return If(v >= 2**(8*ft.size-1), v - 2**(8*ft.size), v) if ft.signed else v
    def union_set(self, st, rec, a, ft, v):
        if ft.signed: v = If(v < 0, v + 2**(8*ft.size), v)
        total = 0
        for key, off, z in self.union_parts(rec):
            x = FInt("part"); st.path.append(And(x >= 0, x < 2**(8*z)))
            if z3.is_int_value(v): x = IntVal((v.as_long() >> (8*off)) % 2**(8*z))
            total = total + x * 2**(8*off)
            st.mem[key] = Store(self.arr(st, key), a, x); st.written.add(key)
        st.path.append(v == total)
    def copyrec(self, st, t, dst, src, e):
        n = self.p.sizeof(t)
        self.oblige(st, self.okf(st, src, IntVal(n)), "read", e)
        self.oblige(st, self.okf(st, dst, IntVal(n)), "write", e)
        for key, off, ft in self.p.leafs(t):
            if key is None: raise Unsupported("copy of a record holding an array")
            v = self.get(st, key, src + off)
            st.mem[key] = Store(self.arr(st, key), dst + off, v)
            st.written.add(key)

    # ---------- obligations
    def loc(self, e):
        def find(n, d=0):
            for k in ("loc",):
                l = n.get(k, {})
                l = l.get("expansionLoc", l)
                if "line" in l: return l["line"]
            r = n.get("range", {}).get("begin", {})
            r = r.get("expansionLoc", r)
            if "line" in r: return r["line"]
            return None
        return (find(e) if e else None) or self.lastline
    lastline = 0
    def note_line(self, e):
        for r in (e.get("range", {}).get("begin", {}), e.get("loc", {})):
            r = r.get("expansionLoc", r)
            if "line" in r: self.lastline = r["line"]; return
    def oblige(self, st, goal, kind, e=None):
        if self.quiet:
            st.path.append(goal)
            return
        if z3.is_true(z3.simplify(goal)): 
            self.triv += 1
            return
        self.obls.append(Obl(self.cur, kind, self.lastline, list(st.path), goal, list(st.trace)))
        # an obligation once posed may be used from there on
        st.path.append(goal)

    # resource limits, not wall clock: the answers do not depend on the load
    def feasible(self, st, extra=None, ms=250):
        s = z3.SimpleSolver(); s.set("rlimit", ms * RLIM); s.set("mbqi", False)
        s.add(*self.axioms); s.add(*st.path)
        if extra is not None: s.add(extra)
        self.nchecks += 1
        return s.check() != z3.unsat
    def valid(self, path, goal, ms=None):
        s = z3.SimpleSolver(); s.set("rlimit", (600 if self.retry else ms or 3000) * RLIM); s.set("mbqi", False)
        s.add(*self.axioms); s.add(*path); s.add(Not(goal))
        self.nchecks += 1
        if s.check() == z3.unsat: return True
        if not self.retry: return False
        return self.cvc5(path, goal, self.retry)
    def cvc5(self, path, goal, steps):
        s = z3.Solver(); s.add(*self.axioms); s.add(*path); s.add(Not(goal))
        p = subprocess.run(["cvc5", "--rlimit=%d" % steps, "--tlimit=60000", "--lang=smt2", "-"], input=s.to_smt2(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        return p.stdout.startswith("unsat")

    def valid_many(self, queries, ms):
        """[(path, goal)] -> [bool], on forked copies of this process"""
        n = min(JOBS, len(queries))
        if n <= 1: return [self.valid(p, g, ms) for p, g in queries]
        kids = []
        sys.stdout.flush(); sys.stderr.flush()
        for w in range(n):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(rd)
                    out = bytes((i % 256, i // 256, 1 if self.valid(queries[i][0], queries[i][1], ms) else 0)[k] for i in range(w, len(queries), n) for k in range(3))
                    os.write(wr, out); code = 0
                finally:
                    os._exit(code)
            os.close(wr); kids.append((pid, rd))
        res = [False] * len(queries)
        for pid, rd in kids:
            data = b""
            while True:
                b = os.read(rd, 65536)
                if not b: break
                data += b
            os.close(rd); os.waitpid(pid, 0)
            for j in range(0, len(data) - 2, 3): res[data[j] + 256 * data[j + 1]] = bool(data[j + 2])
        self.nchecks += len(queries)
        return res

    # ---------- arithmetic
    def wrap(self, t, v, st=None, e=None):
        if t.k == "ptr": return v
        if getattr(t, "bool", False): return v
        lo, hi = (-(2**(8*t.size-1)), 2**(8*t.size-1) - 1) if t.signed else (0, 2**(8*t.size) - 1)
        sv = z3.simplify(v) if z3.is_expr(v) else IntVal(v)
        if z3.is_int_value(sv):
            x = sv.as_long() % (2**(8*t.size))
            if t.signed and x > hi: x -= 2**(8*t.size)
            return IntVal(x)
        return None if st is None else v
    def arith(self, st, op, a, b, t, e):
        """exact machine arithmetic in type t"""
        m = 2**(8*t.size)
        if op in ("+", "-", "*"):
            r = a + b if op == "+" else a - b if op == "-" else a * b
            sr = z3.simplify(r)
            if z3.is_int_value(sr): r = sr
            if t.signed:
                self.oblige(st, And(r >= -(m // 2), r < m // 2), "overflow", e)
                return r
            if z3.is_int_value(r): return IntVal(r.as_long() % m)
            if op == "+": return If(r >= m, r - m, r)
            if op == "-": return If(r < 0, r + m, r)
            if t.size == 8 and not (z3.is_int_value(a) or z3.is_int_value(b)):
                # a fact of arithmetic: 32 by 32 bits fit 64
                st.path.append(Implies(And(0 <= a, a < 2**32, 0 <= b, b < 2**32), And(r >= 0, r <= (2**32 - 1)**2)))
            return If(And(r >= 0, r < m), r, r % m)
        if op in ("/", "%"):
            self.oblige(st, b != 0, "division by zero", e)
            if t.signed:
                self.oblige(st, Not(And(a == -(m // 2), b == -1)), "overflow", e)
                q = If(a >= 0, If(b > 0, a / b, -(a / (-b))), If(b > 0, -((-a) / b), (-a) / (-b)))
                return q if op == "/" else a - q * b
            return a / b if op == "/" else a % b
        if op in ("<<", ">>"):
            sb = z3.simplify(b)
            if z3.is_int_value(sb):
                k = sb.as_long()
                if op == "<<":
                    r = a * (2**k)
                    return r % m if not t.signed else r
                return a / (2**k)
            raise Unsupported("shift by a variable")
        if op == "&":
            sa, sb = z3.simplify(a), z3.simplify(b)
            for x, y in ((a, sb), (b, sa)):
                if z3.is_int_value(y) and y.as_long() >= 0 and ((y.as_long() + 1) & y.as_long()) == 0:
                    return x % (y.as_long() + 1)
            # a function of two integers (as two's complement of any width)
            r = band(a, b)
            st.path.append(And(self.range(t, r), r == band(b, a), Implies(a >= 0, And(0 <= r, r <= a)), Implies(b >= 0, And(0 <= r, r <= b)), Implies(a == b, r == a)))
            return r
        if op in ("|", "^"):
            r = FInt("bits"); st.path.append(self.range(t, r)); return r
        raise Unsupported("operator " + op)
    def cast(self, st, v, f, t, e):
        if t.k == "void" or t.k == "rec" or f.k == "rec": return v
        if t.k == "float" or f.k == "float":
            return FInt("float")
        if t.k == "int" and f.k == "int":
            if getattr(t, "bool", False): return If(v != 0, IntVal(1), IntVal(0))
            m = 2**(8*t.size)
            sv = z3.simplify(v)
            if z3.is_int_value(sv):
                x = sv.as_long() % m
                return IntVal(x - m if t.signed and x >= m // 2 else x)
            if f.signed == t.signed and t.size >= f.size: return v
            if not f.signed and t.signed and t.size > f.size: return v
            if not t.signed:
                if f.signed and t.size >= f.size: return If(v < 0, v + m, v)
                return v % m
            if f.size == t.size: return If(v >= m // 2, v - m, v)
            r = v % m
            return If(r >= m // 2, r - m, r)
        if t.k == "int" and getattr(t, "bool", False): return If(v != 0, IntVal(1), IntVal(0))
        if t.k == "int" and f.k == "ptr":
            if t.size == 8: return v
            return v % (2**(8*t.size))
        return v

    # ---------- expressions: each returns a list of (state, value)
    def truth(self, v):
        return v != 0 if not z3.is_bool(v) else v
    def ev(self, e, st):
        self.note_line(e)
        k = e["kind"]
        m = getattr(self, "ev_" + k, None)
        if m is None: raise Unsupported("expression " + k)
        return m(e, st)
    def sub(self, e): return [x for x in e.get("inner", []) if x.get("kind")]
    def ev_ParenExpr(self, e, st): return self.ev(self.sub(e)[0], st)
    def ev_ConstantExpr(self, e, st): return self.ev(self.sub(e)[0], st)
    def ev_FullExpr(self, e, st): return self.ev(self.sub(e)[0], st)
    def ev_IntegerLiteral(self, e, st): return [(st, IntVal(int(e["value"])))]
    def ev_CharacterLiteral(self, e, st): return [(st, IntVal(int(e["value"])))]
    def ev_StringLiteral(self, e, st):
        return [(st, self.strlit(e, st))]
    def ev_PredefinedExpr(self, e, st): return [(st, self.strlit(e, st))]
    def strlit(self, e, st):
        a = Int("str_%s" % e["id"]); st.path.append(And(a > 0, a < 2**62))
        if self.strings and e["kind"] == "StringLiteral":
            # what a literal holds is said whenever it is evaluated
            b = json.loads(e["value"]).encode("latin-1") + b"\0"
            if len(b) <= 64:
                m = self.arr(st, ("t", 1)); x, n = Int("lit_x"), Int("lit_n")
                st.path.append(And(*[Select(m, a + i) == c for i, c in enumerate(b)]))
                st.path.append(ForAll([x, n], Implies(And(a <= x, x + n <= a + len(b), n >= 0), ok0(x, n)), patterns=[ok0(x, n)]))
        return a
    def ev_FloatingLiteral(self, e, st): return [(st, FInt("float"))]
    def ev_ImplicitValueInitExpr(self, e, st): return [(st, IntVal(0))]
    def ev_UnaryExprOrTypeTraitExpr(self, e, st):
        if e.get("name") != "sizeof": raise Unsupported(e.get("name"))
        if "argType" in e:
            t = self.p.parse(e["argType"].get("desugaredQualType", e["argType"]["qualType"]))
        else: t = self.p.etype(self.sub(e)[0])
        return [(st, IntVal(self.p.sizeof(t)))]
    def ev_DeclRefExpr(self, e, st):
        d = e["referencedDecl"]
        if d["kind"] == "EnumConstantDecl": return [(st, IntVal(self.enum(d["id"])))]
        if d["kind"] == "FunctionDecl": return [(st, self.fn_addr(d["name"]))]
        t = self.p.etype(e)
        out = []
        for s, lv in self.lv(e, st):
            out.append((s, lv[2] if t.k in ("rec", "arr") else self.load(s, lv, t, e)))
        return out
    def enum(self, i):
        for tu in [self.p.tu] + self.p.others:
            if i in tu.enums: return tu.enums[i]
        raise Unsupported("enum constant")
    def fn_addr(self, name):
        """distinct constants: a function's address is no object's"""
        if name not in self.fns: self.fns[name] = IntVal(2**62 + 16 * (len(self.fns) + 1))
        return self.fns[name]
    def addr_of_global(self, d, st):
        n = d["name"]
        a = Int("glob_" + n)
        if n not in st.ghost:
            t = self.p.etype(d)
            st.path.append(And(a > 0, a < 2**62))
            st.ghost[n] = True
            try: st.blocks.append((a, IntVal(self.p.sizeof(t))))
            except Unsupported: pass
        return a
    def scalar_lv(self, key, addr, va, vs): return ("mem", key, addr, va, vs)
    def tkey(self, t):
        if t.k == "int": return ("t", t.size)
        if t.k == "ptr": return ("t", "ptr")
        if t.k == "float": return ("t", "float%d" % t.size)
        raise Unsupported("scalar type %r" % t)
    def at(self, a, t):
        """lvalue of type t at address a"""
        if t.k in ("rec", "arr"): return ("agg", t, a)
        if t.k == "void" or t.k == "func": return ("agg", t, a)
        return ("mem", self.tkey(t), a, a, self.p.sizeof(t))
    def lv(self, e, st):
        self.note_line(e)
        k = e["kind"]
        if k == "ParenExpr" or k == "UnaryOperator" and e["opcode"] == "__extension__": return self.lv(self.sub(e)[0], st)
        if k == "DeclRefExpr":
            d = e["referencedDecl"]
            t = self.p.etype(e)
            if d["id"] in st.env:
                v = st.env[d["id"]]
                if isinstance(v, tuple): # addressable local
                    return [(st, self.at(v[1], t))]
                return [(st, ("var", d["id"]))]
            if d["kind"] in ("VarDecl",):
                a = self.addr_of_global(d, st)
                return [(st, self.at(a, t))]
            raise Unsupported("reference to " + d.get("name", "?"))
        if k == "MemberExpr":
            base = self.sub(e)[0]
            f = self.field(e["referencedMemberDecl"])
            out = []
            for s, a in (self.ev(base, st) if e.get("isArrow") else [(s, self.agg_addr(l)) for s, l in self.lv(base, st)]):
                out.append((s, self.field_lv(f, a)))
            return out
        if k == "UnaryOperator" and e["opcode"] == "*":
            t = self.p.etype(e)
            return [(s, self.at(a, t)) for s, a in self.ev(self.sub(e)[0], st)]
        if k == "ArraySubscriptExpr":
            b, i = self.sub(e)
            t = self.p.etype(e)
            n = self.p.sizeof(t)
            out = []
            for s, a in self.ev(b, st):
                for s2, iv in self.ev(i, s):
                    out.append((s2, self.at(a + iv * n, t)))
            return out
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            return self.lv(self.sub(e)[0], st)
        if k in ("StringLiteral", "PredefinedExpr"):
            return [(st, ("agg", self.p.etype(e), self.strlit(e, st)))]
        if k == "CompoundLiteralExpr":
            raise Unsupported("compound literal")
        raise Unsupported("lvalue " + k)
    def agg_addr(self, lv):
        if lv[0] == "agg": return lv[2]
        if lv[0] in ("mem", "union"): return lv[2]
        raise Unsupported("address of a register variable")
    def field(self, i):
        for tu in [self.p.tu] + self.p.others:
            if i in tu.fields:
                f = tu.fields[i]; rec = tu.records[f["rec"]]
                if tu is not self.p.tu:
                    # the same record in the main translation unit
                    r2 = self.p.tu.records[self.p.tu.rec_names[rec["name"]]]
                    for g in r2["fields"]:
                        if g["name"] == f["name"]: return g, r2
                return f, rec
        raise Unsupported("field")
    def field_lv(self, fr, a):
        f, rec = fr
        ft = self.p.parse(f["type"])
        if f["sub"] is not None and ("unnamed" in f["type"] or "anonymous" in f["type"]): ft = T("rec", id=f["sub"])
        off = self.p.types.off.get(f["id"], 0 if not f["name"] else None)
        if off is None: raise Unsupported("offset of %s" % f["name"])
        if ft.k in ("rec", "arr"): return ("agg", ft, a + off if off else a)
        if rec["union"]:
            u = self.p.union(rec)
            if u and u[0]["name"] == f["name"]: return ("union", rec, a, ft)
        return ("mem", ("f", rec["name"], f["name"]), a, a + off if off else a, self.p.sizeof(ft))
    def rvalue(self, e, st):
        t = self.p.etype(e)
        out = []
        for s, lv in self.lv(e, st):
            out.append((s, lv[2] if lv[0] == "agg" else self.load(s, lv, t, e)))
        return out
    ev_MemberExpr = ev_ArraySubscriptExpr = rvalue
    def ev_ImplicitCastExpr(self, e, st):
        ck = e["castKind"]; x = self.sub(e)[0]
        if ck == "LValueToRValue":
            t = self.p.etype(e)
            out = []
            for s, lv in self.lv(x, st):
                out.append((s, lv[2] if lv[0] == "agg" else self.load(s, lv, t, e)))
            return out
        if ck == "ArrayToPointerDecay":
            return [(s, self.agg_addr(lv)) for s, lv in self.lv(x, st)]
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"): return self.ev(x, st)
        if ck == "NullToPointer": return [(st, IntVal(0))]
        f, t = self.p.etype(x), self.p.etype(e)
        return [(s, self.cast(s, v, f, t, e)) for s, v in self.ev(x, st)]
    ev_CStyleCastExpr = ev_ImplicitCastExpr
    def as_int(self, b): return If(b, IntVal(1), IntVal(0))
    def branch(self, st, cond):
        """[(state, bool)] feasible sides of a condition"""
        c = z3.simplify(cond)
        if z3.is_true(c): return [(st, True)]
        if z3.is_false(c): return [(st, False)]
        a, b = st.copy(), st
        a.path.append(cond); b.path.append(Not(cond))
        out = []
        fa = self.feasible(a)
        if fa: out.append((a, True))
        if not fa or self.feasible(b): out.append((b, False))
        self.exec_budget -= 1
        if self.exec_budget < 0: raise Unsupported("too many paths")
        return out
    def cond(self, e, st):
        """[(state, bool)] with short circuits"""
        k = e["kind"]
        self.note_line(e)
        if k == "ParenExpr": return self.cond(self.sub(e)[0], st)
        if k == "ImplicitCastExpr" and e["castKind"] in ("IntegralToBoolean", "PointerToBoolean", "IntegralCast"):
            return self.cond(self.sub(e)[0], st) if e["castKind"] != "IntegralCast" or self.is_boolish(self.sub(e)[0]) else self.cond_val(e, st)
        if k == "UnaryOperator" and e["opcode"] == "!":
            return [(s, not b) for s, b in self.cond(self.sub(e)[0], st)]
        if k == "BinaryOperator" and e["opcode"] in ("&&", "||"):
            l, r = self.sub(e)
            out = []
            for s, b in self.cond(l, st):
                if b == (e["opcode"] == "||"): out.append((s, b))
                else: out += self.cond(r, s)
            return out
        return self.cond_val(e, st)
    def is_boolish(self, e):
        return e["kind"] in ("BinaryOperator",) and e["opcode"] in ("==", "!=", "<", ">", "<=", ">=", "&&", "||") or \
            (e["kind"] == "ParenExpr" and self.is_boolish(self.sub(e)[0])) or (e["kind"] == "UnaryOperator" and e["opcode"] == "!")
    def cond_val(self, e, st):
        out = []
        for s, v in self.ev(e, st):
            out += self.branch(s, self.truth(v))
        return out
    def ev_UnaryOperator(self, e, st):
        op = e["opcode"]; x = self.sub(e)[0]
        t = self.p.etype(e)
        if op == "&":
            if x["kind"] == "DeclRefExpr" and x["referencedDecl"]["kind"] == "FunctionDecl": return [(st, self.fn_addr(x["referencedDecl"]["name"]))]
            out = []
            for s, lv in self.lv(x, st):
                if lv[0] == "var": raise Unsupported("address of register variable")
                out.append((s, lv[3] if lv[0] == "mem" and lv[1][0] == "f" else lv[2]))
                if lv[0] == "mem" and lv[1][0] == "f":
                    # pointer to a scalar field: reached through a plain pointer
                    self.fieldptr(s, lv)
            return out
        if op == "*": return self.rvalue(e, st)
        if op == "!":
            return [(s, IntVal(1 if b else 0)) for s, b in self.cond(e, st)]
        if op in ("++", "--"):
            out = []
            for s, lv in self.lv(x, st):
                v = self.load(s, lv, t, e)
                if t.k == "ptr":
                    n = self.p.sizeof(self.p.parse(t.to))
                    w = v + n if op == "++" else v - n
                else:
                    w = self.incdec(s, op, v, t, e)
                self.store(s, lv, t, w, e)
                out.append((s, v if e.get("isPostfix") else w))
            return out
        out = []
        for s, v in self.ev(x, st):
            if op == "-":
                out.append((s, self.arith(s, "-", IntVal(0), v, t, e)))
            elif op == "+": out.append((s, v))
            elif op == "~": out.append((s, (2**(8*t.size) - 1 - v) if not t.signed else (-v - 1)))
            elif op == "__extension__": out.append((s, v))
            else: raise Unsupported("unary " + op)
        return out
    def fieldptr(self, st, lv): pass
    def incdec(self, s, op, v, t, e):
        if t.size < 4:
            r = v + 1 if op == "++" else v - 1
            return self.cast(s, r, T("int", size=4, signed=True), t, e)
        return self.arith(s, "+" if op == "++" else "-", v, IntVal(1), t, e)
    CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, ">": lambda a, b: a > b,
           "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}
    def ev_BinaryOperator(self, e, st):
        op = e["opcode"]; l, r = self.sub(e)
        t = self.p.etype(e)
        if op == ",":
            out = []
            for s, _ in self.ev(l, st): out += self.ev(r, s)
            return out
        if op in ("&&", "||"):
            return [(s, IntVal(1 if b else 0)) for s, b in self.cond(e, st)]
        if op == "=":
            if t.k == "rec":
                out = []
                for s, a in self.ev_rec(r, st):
                    for s2, lv in self.lv(l, s):
                        self.copyrec(s2, t, self.agg_addr(lv), a, e); out.append((s2, a))
                return out
            out = []
            for s, v in self.ev(r, st):
                for s2, lv in self.lv(l, s):
                    self.store(s2, lv, t, v, e); out.append((s2, v))
            return out
        out = []
        for s, a in self.ev(l, st):
            for s2, b in self.ev(r, s):
                lt, rt = self.p.etype(l), self.p.etype(r)
                if op in self.CMP:
                    if lt.k == "float" or rt.k == "float": v = FInt("fcmp"); s2.path.append(And(v >= 0, v <= 1)); out.append((s2, v)); continue
                    out.append((s2, self.as_int(self.CMP[op](a, b)))); continue
                out.append((s2, self.binop(s2, op, a, b, lt, rt, t, e)))
        return out
    def ev_rec(self, e, st):
        """address of a record-valued expression"""
        while e["kind"] in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr") and self.p.etype(e).k == "rec":
            e = self.sub(e)[0]
        if e["kind"] == "CallExpr": return self.ev(e, st)
        return [(s, self.agg_addr(lv)) for s, lv in self.lv(e, st)]
    def binop(self, s, op, a, b, lt, rt, t, e):
        if lt.k == "ptr" and rt.k == "ptr" and op == "-":
            n = self.p.sizeof(self.p.parse(lt.to))
            return a - b if n == 1 else (a - b) / n
        if lt.k == "ptr":
            n = self.p.sizeof(self.p.parse(lt.to)); return a + b * n if op == "+" else a - b * n
        if rt.k == "ptr":
            n = self.p.sizeof(self.p.parse(rt.to)); return b + a * n
        if t.k == "float": return FInt("float")
        return self.arith(s, op, a, b, t, e)
    def ev_CompoundAssignOperator(self, e, st):
        op = e["opcode"][:-1]; l, r = self.sub(e)
        t = self.p.etype(l)
        ct = self.p.parse(e["computeResultType"].get("desugaredQualType", e["computeResultType"]["qualType"])) if "computeResultType" in e else t
        out = []
        for s, b in self.ev(r, st):
            for s2, lv in self.lv(l, s):
                a = self.load(s2, lv, t, e)
                if t.k == "ptr":
                    n = self.p.sizeof(self.p.parse(t.to)); v = a + b * n if op == "+" else a - b * n
                else:
                    ca = self.cast(s2, a, t, ct, e)
                    v = self.cast(s2, self.arith(s2, op, ca, b, ct, e), ct, t, e)
                self.store(s2, lv, t, v, e)
                out.append((s2, v))
        return out
    def ev_ConditionalOperator(self, e, st):
        c, a, b = self.sub(e)
        out = []
        for s, v in self.cond(c, st):
            out += self.ev(a if v else b, s)
        return out
    def ev_StmtExpr(self, e, st):
        out = []
        for s, k, v in self.ex(self.sub(e)[0], st):
            if k == "return": raise Unsupported("return in a statement expression")
            out.append((s, v if v is not None else IntVal(0)))
        return out
    def ev_InitListExpr(self, e, st): raise Unsupported("initialiser list")

    # ---------- calls
    def ev_CallExpr(self, e, st):
        inner = self.sub(e)
        f = inner[0]
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr"): f = self.sub(f)[0]
        while f["kind"] == "UnaryOperator" and f["opcode"] == "*":
            f = self.sub(f)[0]
            while f["kind"] in ("ImplicitCastExpr", "ParenExpr"): f = self.sub(f)[0]
        states = [(st, [])]
        for a in inner[1:]:
            nxt = []
            for s, vs in states:
                at = self.p.etype(a)
                for s2, v in (self.ev_rec(a, s) if at.k == "rec" else self.ev(a, s)):
                    nxt.append((s2, vs + [v]))
            states = nxt
        out = []
        for s, vs in states:
            self.note_line(e)
            if f["kind"] == "DeclRefExpr" and f["referencedDecl"]["kind"] == "FunctionDecl":
                out += self.call(f["referencedDecl"]["name"], vs, s, e)
            elif f["kind"] == "DeclRefExpr" and ("var:" + f["referencedDecl"]["name"]) in self.builtins:
                out += self.builtins["var:" + f["referencedDecl"]["name"]](self, s, vs, e, None)
            elif f["kind"] == "DeclRefExpr" and "var:*" in self.builtins:
                for s2, fv in self.ev(f, s): out += self.builtins["var:*"](self, s2, vs, e, fv)
            elif f["kind"] == "MemberExpr":
                fld, rec = self.field(f["referencedMemberDecl"])
                h = self.builtins.get("field:%s.%s" % (rec["name"], fld["name"]))
                for s2, fv in self.ev(f, s): out += h(self, s2, vs, e, fv) if h else self.dispatch(s2, fv, vs, e)
            else:
                for s2, fv in self.ev(f, s): out += self.dispatch(s2, fv, vs, e)
        return out
    def ev_AtomicExpr(self, e, st):
        xs = self.sub(e)
        if len(xs) != 6 or "__atomic_compare_exchange" not in self.builtins: raise Unsupported("atomic operation")
        out = [(st, [])]
        for x in (xs[0], xs[2], xs[4]):
            out = [(s2, vs + [v]) for s, vs in out for s2, v in self.ev(x, s)]
        return [r for s, vs in out for r in self.builtins["__atomic_compare_exchange"](self, s, vs, e, None)]
    def dispatch(self, st, fv, vs, e):
        """a call through a pointer: one of the functions whose address was taken"""
        out, rest = [], [st]
        for name, a in list(self.fns.items()):
            nr = []
            for s in rest:
                for s2, b in self.branch(s, fv == a):
                    if b: out += self.call(name, list(vs), s2, e)
                    else: nr.append(s2)
            rest = nr
        for s in rest: self.oblige(s, BoolVal(False), "the function called is known", e)
        return out
    def lemma(self, label, f):
        """an arithmetic fact: proved from nothing, and then used"""
        o = Obl(self.cur or "lemma", "lemma: " + label, 0, [], f, [])
        self.lemmas.append(o)
        return (label, f)
    def call(self, name, vs, st, e):
        if name in self.contracts and not (self.depth == 0 and False):
            return self.call_contract(self.contracts[name], vs, st, e)
        if name in self.builtins: return self.builtins[name](self, st, vs, e, None)
        d = self.p.body(name)
        if d is None: raise Unsupported("call of %s, which has no contract and no body" % name)
        if self.depth > 8: raise Unsupported("inlining of %s is too deep" % name)
        self.inlined.add(name)
        return self.inline(d, vs, st)
    def call_contract(self, c, vs, st, e):
        self.called.add(c.name)
        g = c.ghosts(self)
        old = st.copy()
        cc = C(self, vs, old, old, None, g)
        for label, f in c.pre(cc): self.oblige(st, f, "precondition of %s: %s" % (c.name, label), e)
        for key, pred in c.mods(cc).items():
            n = FArr("hav")
            a = Int(fresh("a"))
            o = self.arr(st, key)
            if pred is not True: st.path.append(ForAll([a], Implies(Not(pred(a)), Select(n, a) == Select(o, a)), patterns=[Select(n, a)]))
            st.mem[key] = n; st.written.add(key)
        d = self.p.body(c.name) or self.p.tu.funcs.get(c.name)
        ret = None
        rt = self.ret_type(d) if d else T("void")
        if rt.k != "void":
            ret = FInt("ret"); 
            if rt.k in ("int", "ptr"): st.path.append(self.range(rt, ret))
        cc = C(self, vs, old, st, ret, g)
        for label, f in c.post(cc): st.path.append(f)
        return [(st, ret if ret is not None else IntVal(0))]
    def ret_type(self, d):
        q = d["type"]["qualType"]
        i = q.index("(")
        return self.p.parse(q[:i].strip()) if not re.match(r".*\(\*", q[:i + 2]) else T("ptr", to="func")
    def params(self, d): return [x for x in d.get("inner", []) if x["kind"] == "ParmVarDecl"]
    def addressed(self, d):
        """ids of locals that need an address"""
        if "_addr" in d: return d["_addr"]
        ids = set()
        def walk(n):
            if not isinstance(n, dict): return
            if n.get("kind") == "UnaryOperator" and n.get("opcode") == "&":
                x = n["inner"][0]
                while x["kind"] == "ParenExpr": x = x["inner"][0]
                if x["kind"] == "DeclRefExpr": ids.add(x["referencedDecl"]["id"])
            for x in n.get("inner", []): walk(x)
        walk(d)
        d["_addr"] = ids
        return ids
    def fresh_block(self, st, size, prefix="blk"):
        a = FInt(prefix)
        st.path.append(And(a > 0, a + size < 2**62))
        x, n = Int(fresh("x")), Int(fresh("n"))
        st.path.append(ForAll([x, n], Implies(ok0(x, n), Or(x + n <= a, a + size <= x)), patterns=[ok0(x, n)]))
        for b, ln in st.blocks: st.path.append(Or(b + ln <= a, a + size <= b))
        st.blocks.append((a, size))
        return a
    def inline(self, d, vs, st):
        ps = self.params(d)
        saved = self.scope_fn if hasattr(self, "scope_fn") else None
        self.scope_fn = d
        self.depth += 1
        addr = self.addressed(d)
        # a recursive or repeated inlining reuses declaration ids: save them
        ids = self.local_ids(d)
        keep = {i: st.env[i] for i in ids if i in st.env}
        for p, v in zip(ps, vs):
            t = self.p.etype(p)
            if t.k == "rec" or p["id"] in addr:
                a = self.fresh_block(st, IntVal(self.p.sizeof(t)), "arg")
                if t.k == "rec": self.copyrec(st, t, a, v, None)
                else: st.mem[self.tkey(t)] = Store(self.arr(st, self.tkey(t)), a, v if not (t.k == "int" and t.signed) else If(v < 0, v + 2**(8*t.size), v)); st.written.add(self.tkey(t))
                st.env[p["id"]] = ("loc", a)
            else: st.env[p["id"]] = v
        body = [x for x in d["inner"] if x["kind"] == "CompoundStmt"][0]
        line = self.lastline
        out = []
        for s, k, v in self.ex(body, st):
            for i in ids:
                if i in keep: s.env[i] = keep[i]
                else: s.env.pop(i, None)
            out.append((s, v if v is not None else IntVal(0)))
        self.depth -= 1
        self.scope_fn = saved
        self.lastline = line
        return out
    def local_ids(self, d):
        if "_ids" in d: return d["_ids"]
        ids = set()
        def walk(n):
            if n.get("kind") in ("VarDecl", "ParmVarDecl"): ids.add(n["id"])
            for x in n.get("inner", []):
                if isinstance(x, dict): walk(x)
        walk(d)
        d["_ids"] = ids
        return ids

    # ---------- statements: list of (state, kind, value)
    def ex(self, n, st):
        self.note_line(n)
        k = n["kind"]
        m = getattr(self, "ex_" + k, None)
        if m is None:
            return [(s, "normal", v) for s, v in self.ev(n, st)]
        return m(n, st)
    def ex_CompoundStmt(self, n, st):
        cur = [(st, "normal", None)]
        for x in self.sub(n):
            nxt = []
            for s, k, v in cur:
                if k != "normal": nxt.append((s, k, v))
                else: nxt += self.ex(x, s)
            cur = nxt
        return cur
    def ex_NullStmt(self, n, st): return [(st, "normal", None)]
    def ex_DeclStmt(self, n, st):
        cur = [st]
        for d in self.sub(n):
            if d["kind"] != "VarDecl": continue
            t = self.p.etype(d)
            nxt = []
            for s in cur:
                init = self.sub(d)
                fn = self.scope_fn
                if d.get("storageClass") == "static": raise Unsupported("static local")
                if t.k in ("rec", "arr") or d["id"] in self.addressed(fn):
                    a = self.fresh_block(s, IntVal(self.p.sizeof(t)), "loc_" + d["name"])
                    s.env[d["id"]] = ("loc", a)
                    if t.k == "rec" and self.p.tu.records[t.id].get("align"): s.path.append(a % self.p.tu.records[t.id]["align"] == 0)
                    if not init: nxt.append(s)
                    elif t.k == "rec":
                        if init[0]["kind"] == "InitListExpr": nxt += self.init_rec(s, t, a, init[0]); continue
                        for s2, src in self.ev_rec(init[0], s): self.copyrec(s2, t, a, src, n); nxt.append(s2)
                    elif t.k == "arr": raise Unsupported("array initialiser")
                    else:
                        for s2, v in self.ev(init[0], s):
                            self.store(s2, self.at(a, t), t, v, n); nxt.append(s2)
                elif init:
                    for s2, v in self.ev(init[0], s):
                        s2.env[d["id"]] = v; nxt.append(s2)
                else:
                    v = FInt("undef_" + d["name"])
                    if t.k in ("int", "ptr"): s.path.append(self.range(t, v))
                    s.env[d["id"]] = v
                    nxt.append(s)
            cur = nxt
        return [(s, "normal", None) for s in cur]
    def init_rec(self, st, t, a, e):
        rec = self.p.tu.records[t.id]
        cur = [st]
        vals = self.sub(e)
        for f, x in zip(rec["fields"], vals):
            lv = self.field_lv((f, rec), a)
            if lv[0] == "agg": raise Unsupported("nested initialiser")
            nxt = []
            for s in cur:
                for s2, v in self.ev(x, s):
                    self.store(s2, lv, self.p.parse(f["type"]), v, e); nxt.append(s2)
            cur = nxt
        return cur
    def ex_ReturnStmt(self, n, st):
        x = self.sub(n)
        if not x: return [(st, "return", None)]
        t = self.p.etype(x[0])
        if t.k == "rec": return [(s, "return", v) for s, v in self.ev_rec(x[0], st)]
        return [(s, "return", v) for s, v in self.ev(x[0], st)]
    def ex_BreakStmt(self, n, st): return [(st, "break", None)]
    def ex_ContinueStmt(self, n, st): return [(st, "continue", None)]
    def ex_IfStmt(self, n, st):
        x = self.sub(n)
        out = []
        for s, b in self.cond(x[0], st):
            if b: out += self.ex(x[1], s)
            elif len(x) > 2: out += self.ex(x[2], s)
            else: out.append((s, "normal", None))
        return out
    def ex_SwitchStmt(self, n, st):
        x = self.sub(n)
        body = self.sub(x[-1]) if x[-1]["kind"] == "CompoundStmt" else [x[-1]]
        flat, labels = [], []
        def flatten(s):
            if s["kind"] == "CaseStmt":
                labels.append((len(flat), s["inner"][0])); flatten(s["inner"][-1])
            elif s["kind"] == "DefaultStmt":
                labels.append((len(flat), None)); flatten(s["inner"][-1])
            else: flat.append(s)
        for s in body: flatten(s)
        out = []
        for s, v in self.ev(x[0], st):
            rest = [s]
            default = None
            starts = []
            for pos, ce in labels:
                if ce is None: default = pos; continue
                nr = []
                for r in rest:
                    for r2, cv in self.ev(ce, r):
                        for r3, b in self.branch(r2, v == cv):
                            if b: starts.append((r3, pos))
                            else: nr.append(r3)
                rest = nr
            for r in rest:
                if default is not None: starts.append((r, default))
                else: out.append((r, "normal", None))
            for r, pos in starts:
                cur = [(r, "normal", None)]
                for stm in flat[pos:]:
                    nxt = []
                    for q, k, val in cur:
                        if k != "normal": nxt.append((q, k, val))
                        else: nxt += self.ex(stm, q)
                    cur = nxt
                for q, k, val in cur: out.append((q, "normal" if k == "break" else k, val))
        return out

    # ---------- loops
    def ex_WhileStmt(self, n, st):
        x = self.sub(n)
        return self.loop(n, x[0], x[1], None, st, False)
    def ex_DoStmt(self, n, st):
        x = self.sub(n)
        return self.loop(n, x[1], x[0], None, st, True)
    def ex_ForStmt(self, n, st):
        i = n["inner"]
        init, cv, cond, inc, body = (i + [{}] * 5)[:5]
        states = [(st, "normal", None)] if not init.get("kind") else self.ex(init, st)
        out = []
        for s, k, v in states:
            out += self.loop(n, cond if cond.get("kind") else None, body, inc if inc.get("kind") else None, s, False)
        return out
    def assigned(self, *ns):
        ids = set()
        def base(x):
            while x["kind"] in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr"): x = x["inner"][0]
            return x
        def walk(x):
            if not isinstance(x, dict): return
            k = x.get("kind")
            if (k == "BinaryOperator" and x["opcode"] == "=") or k == "CompoundAssignOperator" or (k == "UnaryOperator" and x["opcode"] in ("++", "--")):
                b = base(x["inner"][0])
                if b["kind"] == "DeclRefExpr": ids.add(b["referencedDecl"]["id"])
            if k == "VarDecl": ids.add(x["id"])
            for y in x.get("inner", []): walk(y)
        for n in ns:
            if n: walk(n)
        return ids
    def decl_types(self, fnode):
        if "_dt" in fnode: return fnode["_dt"]
        r = {}
        def walk(x):
            if not isinstance(x, dict): return
            if x.get("kind") in ("VarDecl", "ParmVarDecl"): r[x["id"]] = (x.get("name", ""), self.p.etype(x))
            for y in x.get("inner", []): walk(y)
        walk(fnode); fnode["_dt"] = r
        return r
    def iteration(self, cond, body, inc, st, dowhile):
        """one pass: ([states back at the head], [exits])"""
        back, exits = [], []
        starts = [(st, True)]
        if not dowhile: starts = self.cond(cond, st) if cond else [(st, True)]
        for s, b in starts:
            if not b: exits.append((s, "normal", None)); continue
            for s2, k, v in self.ex(body, s):
                if k == "return": exits.append((s2, k, v)); continue
                if k == "break": exits.append((s2, "normal", None)); continue
                ends = [(s2, True)]
                if dowhile: ends = self.cond(cond, s2)
                for s3, b3 in ends:
                    if not b3: exits.append((s3, "normal", None)); continue
                    if inc:
                        for s4, _ in self.ev(inc, s3): back.append(s4)
                    else: back.append(s3)
        return back, exits
    def loop(self, n, cond, body, inc, st, dowhile):
        fnode = self.scope_fn
        dt = self.decl_types(fnode)
        line = n.get("range", {}).get("begin", {}).get("line") or self.lastline
        mod = {i for i in self.assigned(cond, body, inc) if i in st.env and not isinstance(st.env[i], tuple)}
        entry = st.copy()
        # which maps does an iteration write? (probe to a fixpoint)
        self.quiet += 1
        keys = set()
        saved_obls = self.obls; self.obls = []
        try:
            while True:
                h = self.head(entry, mod, keys, dt)
                h.written = set()
                self.probing += 1
                try: back, exits = self.iteration(cond, body, inc, h, dowhile)
                finally: self.probing -= 1
                w = set()
                for s in back + [x[0] for x in exits]: w |= s.written
                if w <= keys: break
                keys |= w
            if self.probing:
                h = self.head(entry, mod, keys, dt)
                h.written |= keys
                return self.iteration(cond, body, inc, h, dowhile)[1]
            # candidates
            con = self.con
            scope = [(dt[i][0], dt[i][1], i) for i in dt if i in entry.env and i in self.visible(fnode, n, dt)]
            sc = Scope(self, scope, mod, entry, fnode["name"], line, keys)
            step = getattr(con, "step", None)       # ghost code at the end of an iteration
            if step:
                s = self.head(entry, mod, keys, dt); s.written = set()
                step(self.cc, sc, s, s.copy()); keys |= s.written
            cands = list(con.loop(self.cc, sc) or []) if con.loop else []
            mods = con.mods(self.cc)
            for key in keys:
                pred = mods.get(key)
                if pred is True: continue
                def mk(key=key, pred=pred):
                    def f(s):
                        a = Int("fr")
                        o = self.arr(self.cc.old, key)
                        b = Select(self.arr(s, key), a) == Select(o, a)
                        new = [And(x <= a, a < x + ln) for x, ln in entry.blocks if not any(x is y[0] for y in self.cc.old.blocks)]
                        return FA([a], Or(b, *(new + ([pred(a)] if pred is not None else []))), Select(self.arr(s, key), a)) if not z3.eq(o, self.arr(s, key)) else BoolVal(True)
                    return f
                cands.append(("frame %s" % (key,), mk()))
            # ranges of modified integers always hold
            uniq, seen, probe = [], {}, self.head(entry, mod, keys, dt)
            for label, f in cands:
                pf = f(probe)
                # known already, or about nothing the loop changes
                if pf.get_id() in seen or pf.eq(f(entry)): continue
                seen[pf.get_id()] = pf
                uniq.append((label, f))
            ok = self.valid_many([(entry.path, f(entry)) for _, f in uniq], 4000)
            live = [c for c, k in zip(uniq, ok) if k]
            while True:
                if getattr(con, "keepall", False): break    # whatever holds at the entry is an invariant, or the check fails
                h = self.head(entry, mod, keys, dt)
                for label, f in live: h.path.append(f(h))
                back, exits = self.iteration(cond, body, inc, h.copy(), dowhile)
                if step:
                    for s in back: step(self.cc, sc, s, h)
                qs = [(i, s.path, f(s)) for i, (label, f) in enumerate(live) for s in back]
                ok = self.valid_many([(p, g) for _, p, g in qs], 4000)
                dropi = {i for (i, _, _), k in zip(qs, ok) if not k}
                drop = [live[i][0] for i in sorted(dropi)]
                if os.environ.get("VCG_DEBUG"): print("  loop %s:%s arrival paths=%d live=%s drop=%s" % (fnode["name"], line, len(back), [l for l, _ in live], drop), file=sys.stderr)
                if not drop: break
                live = [c for i, c in enumerate(live) if i not in dropi]
        finally:
            self.quiet -= 1
            self.obls = saved_obls
        self.invs.append((fnode["name"], line, [l for l, _ in live]))
        h = self.head(entry, mod, keys, dt)
        if getattr(con, "forget", False):
            # what was known of the maps the loop changes is left to the invariants (fewer hypotheses, so sound)
            gone = set()
            for k in keys: gone |= consts(self.arr(entry, k))
            h.path = [f for f in h.path if not (has_quantifier(f) and consts(f) & gone)]
        for label, f in live:
            self.oblige(entry, f(entry), "loop invariant holds at entry: " + label)
            h.path.append(f(h))
        h.written |= keys
        h.trace.append("loop@%s" % line)
        h0 = h.copy()
        back, exits = self.iteration(cond, body, inc, h, dowhile)
        for s in back:
            if step: step(self.cc, sc, s, h0)
            for label, f in live: self.oblige(s.copy(), f(s), "loop invariant is kept: " + label)
            if con.loop and hasattr(con, "decreases") and con.decreases: pass
        return exits
    def visible(self, fnode, loopnode, dt):
        return set(dt)
    def head(self, entry, mod, keys, dt):
        h = entry.copy()
        for i in mod:
            name, t = dt.get(i, ("x", None))
            v = FInt(name)
            if t is not None and t.k in ("int", "ptr"): h.path.append(self.range(t, v))
            h.env[i] = v
        for k in keys:
            h.mem[k] = FArr("h_" + str(k[-1]))
        return h

    # ---------- one function
    def verify(self, con):
        """Generates the obligations of a function against its contract."""
        d = self.p.body(con.name)
        if d is None: raise Unsupported("%s has no body" % con.name)
        self.cur = con.name; self.con = con
        st = State()
        vs = []
        for i, p in enumerate(self.params(d)):
            t = self.p.etype(p)
            v = Int("arg%d" % i)
            if t.k in ("int", "ptr"): st.path.append(self.range(t, v))
            if t.k == "rec": st.path.append(And(v > 0, v < 2**62)); st.blocks.append((v, IntVal(self.p.sizeof(t))))
            vs.append(v)
        g = con.ghosts(self)
        old = st.copy()
        cc = C(self, vs, old, old, None, g)
        pres = con.pre(cc)
        st.mem = dict(old.mem)
        for label, f in pres: st.path.append(f)
        old.path = list(st.path); old.mem = dict(st.mem)
        self.cc = cc
        # vacuity: the precondition must be satisfiable as far as the solver can tell
        self.pre_sat = self.feasible(st, ms=2000)
        n0 = len(self.obls)
        self.obls += self.lemmas
        saved = self.contracts.pop(con.name, None)
        try:
            # a recursive call uses the contract
            if saved is not None and self.calls_self(d, con.name): self.contracts[con.name] = saved
            outs = self.inline(d, vs, st)
        finally:
            if saved is not None: self.contracts[con.name] = saved
        rt = self.ret_type(d)
        self.exits = len(outs)
        feas = 0
        for s, v in outs:
            if self.feasible(s): feas += 1
            c2 = C(self, vs, old, s, v if rt.k != "void" else None, g)
            if hasattr(con, "finish"): con.finish(c2)       # ghost code at the end
            for label, f in con.post(c2): self.oblige(s.copy(), f, "postcondition: " + label)
            mods = con.mods(C(self, vs, old, old, None, g))
            for key in sorted(s.written, key=str):
                o, nw = self.arr(old, key), self.arr(s, key)
                if z3.eq(o, nw): continue
                pred = mods.get(key)
                if pred is True: continue
                a = Int(fresh("frame"))
                blk = [And(b <= a, a < b + ln) for b, ln in s.blocks if not any(b is x[0] for x in old.blocks)]
                okay = ([pred(a)] if pred else []) + blk
                eq = Select(nw, a) == Select(o, a)
                self.oblige(s.copy(), Or(eq, *okay), "frame: %s" % (key,))
        return feas
    def calls_self(self, d, name):
        r = [False]
        def walk(x):
            if isinstance(x, dict):
                if x.get("kind") == "DeclRefExpr" and x.get("referencedDecl", {}).get("name") == name: r[0] = True
                for y in x.get("inner", []): walk(y)
        walk([x for x in d["inner"] if x["kind"] == "CompoundStmt"][0])
        return r[0]

class Scope:
    """Locals visible at a loop, by type."""
    def __init__(self, vc, vars, mod, entry, fn, line, keys):
        self.vc, self.vars, self.mod, self.entry, self.fn, self.line, self.keys = vc, vars, mod, entry, fn, line, keys
    def of(self, pred, modified=None):
        out = []
        for n, t, i in self.vars:
            if isinstance(self.entry.env[i], tuple): continue
            if not pred(t): continue
            if modified is not None and (i in self.mod) != modified: continue
            out.append((n, (lambda s, i=i: s.env[i])))
        return out
    def ptrs(self, recname=None, modified=None):
        def f(t):
            if t.k != "ptr": return False
            if recname is None: return True
            tt = self.vc.p.parse(t.to)
            return tt.k == "rec" and self.vc.p.tu.records[tt.id]["name"] == recname
        return self.of(f, modified)
    def charptrs(self, modified=None):
        return self.of(lambda t: t.k == "ptr" and self.vc.p.parse(t.to).k == "int" and self.vc.p.parse(t.to).size == 1, modified)
    def ints(self, modified=None):
        return self.of(lambda t: t.k == "int", modified)

def consts(f):
    """the maps a formula speaks of"""
    out, seen, todo = set(), set(), [f]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_array(x) and z3.is_const(x): out.add(x.decl().name())
        todo += x.children()
    return out
def about_pairs(f): return has_quantifier(f, 2)
def has_quantifier(f, least=1):
    seen, todo = set(), [f]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if x.num_vars() >= least: return True
            continue
        todo += x.children()
    return False
# ------------------------------------------------------------------ built-ins

def b_assert_fail(vc, st, vs, e, f):
    vc.oblige(st, BoolVal(False), "assertion")
    return []
def b_malloc(vc, st, vs, e, f):
    """NULL, or a fresh block of the size asked for"""
    n = vs[-1]
    r = st.copy()
    out = []
    al = vs[0] if len(vs) == 2 and z3.is_int_value(vs[0]) and vs[0].as_long() > 0 else None
    if not vc.builtins.get("no-malloc-failure"):
        out.append((r, IntVal(0)))
        r.ghost["malloc_failed"] = r.ghost.get("malloc_failed", 0) + 1
    a = vc.fresh_block(st, n, "heap")
    if al is not None: st.path.append(a % al == 0)
    st.ghost["live"] = st.ghost.get("live", ()) + (a,)
    out.append((st, a))
    return out
# which heap blocks are allocated: a map from address to 1
LIVE = ("g", "live")
def b_malloc_tracked(vc, st, vs, e, f):
    out = b_malloc(vc, st, vs, e, f)
    for s, a in out:
        if z3.is_int_value(a): continue
        m = vc.arr(s, LIVE)
        s.path.append(Select(m, a) == 0)
        s.mem[LIVE] = Store(m, a, IntVal(1)); s.written.add(LIVE)
    return out
def b_free_tracked(vc, st, vs, e, f):
    p = vs[0]
    m = vc.arr(st, LIVE)
    vc.oblige(st, Or(p == 0, Select(m, p) == 1), "only an allocated block is freed, once", e)
    st.mem[LIVE] = Store(m, p, IntVal(0)); st.written.add(LIVE)
    return [(st, IntVal(0))]
HEAP = {"malloc": b_malloc_tracked, "free": b_free_tracked, "var:fiftyoneDegreesMalloc": b_malloc_tracked, "var:fiftyoneDegreesMallocAligned": b_malloc_tracked,
    "var:fiftyoneDegreesFree": b_free_tracked, "var:fiftyoneDegreesFreeAligned": b_free_tracked}
def b_memcpy(vc, st, vs, e, f):
    d, s, n = vs
    key = ("t", 1)
    o = vc.arr(st, key); nw = FArr("cpy"); a = Int(fresh("a"))
    vc.oblige(st, Or(n == 0, vc.okf(st, s, n)), "memcpy reads")
    vc.oblige(st, Or(n == 0, vc.okf(st, d, n)), "memcpy writes")
    st.path.append(ForAll([a], Select(nw, a) == If(And(d <= a, a < d + n), Select(o, s + (a - d)), Select(o, a)), patterns=[Select(nw, a)]))
    st.mem[key] = nw; st.written.add(key)
    return [(st, d)]
def b_tolower(vc, st, vs, e, f):
    c = vs[0]
    return [(st, If(And(c >= 65, c <= 90), c + 32, c))]
def b_nop(vc, st, vs, e, f): return [(st, IntVal(0))]
def b_abs(vc, st, vs, e, f):
    vc.oblige(st, vs[0] != -(2**31), "overflow")
    return [(st, If(vs[0] < 0, -vs[0], vs[0]))]

BUILTINS = {"__assert_fail": b_assert_fail, "tolower": b_tolower, "memcpy": b_memcpy, "malloc": b_malloc, "abs": b_abs,
    "fiftyoneDegreesMutexLock": b_nop, "fiftyoneDegreesMutexUnlock": b_nop, "fiftyoneDegreesMutexCreate": b_nop, "fiftyoneDegreesMutexClose": b_nop,
    "var:fiftyoneDegreesMalloc": b_malloc, "var:fiftyoneDegreesMallocAligned": b_malloc}

# ------------------------------------------------------------------ solving

def discharge(vc, jobs=8, timeout=20, second=60):
    """z3, then cvc5, in separate processes"""
    d = tempfile.mkdtemp()
    import shutil
    try:
        files = []
        for i, o in enumerate(vc.obls):
            s = z3.Solver(); s.add(*vc.axioms); s.add(*o.path); s.add(Not(o.goal))
            fn = os.path.join(d, "%d.smt2" % i)
            open(fn, "w").write(s.to_smt2())
            files.append(fn)
            if getattr(vc, "lean", False):
                # the same with fewer hypotheses (sound): without those about pairs
                s = z3.Solver(); s.add(*vc.axioms); s.add(*[f for f in o.path if not about_pairs(f)]); s.add(Not(o.goal))
                open(fn[:-5] + ".lean.smt2", "w").write(s.to_smt2())
        def one(i):
            o = vc.obls[i]; t = time.time()
            # once one has failed, the others only get a short time
            f = files[i]
            def z3a(n): return ("z3", ["z3-new", "-T:%d" % n, f])
            def z3b(n): return ("z3 (other seed)", ["z3-new", "-T:%d" % n, "smt.random_seed=7", "smt.arith.solver=2", f])
            def cv(n): return ("cvc5", ["cvc5", "--tlimit=%d" % (n * 1000), f])
            lean = [z3a(1), ("cvc5", ["cvc5", "--tlimit=10000", f[:-5] + ".lean.smt2"])] if getattr(vc, "lean", False) else []
            for by, cmd in (*lean, z3a(min(3, timeout)), cv(6), z3b(6), z3a(timeout), cv(second // 2), z3b(second)):
                if lost and by != "z3": break
                try:
                    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=second + 30)
                    out = p.stdout.decode(errors="replace").strip().split("\n")[0]
                except subprocess.TimeoutExpired: out = "timeout"
                o.result = out; o.by = by
                if out == "unsat" or (out == "sat" and not any(".lean." in x for x in cmd)): break
            o.t = time.time() - t
            if o.result != "unsat": lost.append(i)
        lost = []
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            list(ex.map(one, range(len(files))))
    finally:
        shutil.rmtree(d)
    return [o for o in vc.obls if o.result != "unsat"]
