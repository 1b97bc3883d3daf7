"""Registration of units, and notions shared by the contracts."""
import re
from vcg import *
UNITS = []
FILE = ""
REPO = "/repo"
ASSUME = ["well typed memory: records of one type are equal or disjoint; scalar fields are only reached as that field",
          "total correctness only where a bound is part of the contract: loops are otherwise shown partially correct"]

class U: pass

def unit(name, props, functions, native=(), tier="quick", timeout=300, trusted=(), notes=(), jobs=4, t1=20, t2=60):
    """Decorates build(u) -> [(VC, Contract)]: the functions to verify."""
    def f(build):
        u = U()
        u.name, u.props, u.functions, u.tier, u.timeout = name, props.split(), functions.split(), tier, timeout
        u.native = native.split() if isinstance(native, str) else list(native)
        u.trusted = list(trusted) + ASSUME; u.notes = list(notes); u.jobs, u.t1, u.t2 = jobs, t1, t2; u.file = FILE
        u.build = build
        UNITS.append(u)
        return build
    return f

_progs = {}
def prog(src, *others):
    k = (src,) + others
    if k not in _progs: _progs[k] = Prog("%s/%s" % (REPO, src), ["%s/%s" % (REPO, o) for o in others])
    return _progs[k]

B = ("t", 1)
def low(c): return If(And(c >= 65, c <= 90), c + 32, c)
def sg(c): return If(c >= 128, c - 256, c)

class G:
    """A ghost variable: kept in the state like memory, so that loops carry it."""
    def __init__(self, name): self.key = ("g", name)
    def get(self, vc, st): return Select(vc.arr(st, self.key), IntVal(0))
    def set(self, vc, st, v):
        st.mem[self.key] = Store(vc.arr(st, self.key), IntVal(0), v if z3.is_expr(v) else IntVal(v))
        st.written.add(self.key)

def fld(vc, st, typename, field, a): return Select(vc.arr(st, vc.p.key(typename, field)), a)
def setfld(vc, st, typename, field, a, v):
    k = vc.p.key(typename, field)
    st.mem[k] = Store(vc.arr(st, k), a, v); st.written.add(k)
def status(vc, st, exc): return fld(vc, st, "fiftyoneDegreesException", "status", exc)
NOT_SET = 1
def okay(vc, st, exc): return Or(exc == 0, status(vc, st, exc) == status_not_set(vc))
def status_not_set(vc): return IntVal(enum(vc, "FIFTYONE_DEGREES_STATUS_NOT_SET"))
def enum(vc, name):
    if name in vc.p.tu.enum_names: return vc.p.tu.enum_names[name]
    raise Unsupported("enum constant " + name)
def set_status(vc, st, exc, v):
    """the exception's status becomes v, if there is an exception"""
    k = vc.p.key("fiftyoneDegreesException", "status")
    st.mem[k] = If(exc != 0, Store(vc.arr(st, k), exc, v), vc.arr(st, k)); st.written.add(k)
def exc_mods(vc, exc):
    """an exception may be written"""
    return {vc.p.key("fiftyoneDegreesException", f): (lambda a: a == exc) for f in ("status", "file", "func", "line")}

_un = [0]
def region(a, size):
    """the caller may use the bytes from a to a + size"""
    _un[0] += 1
    x, n = Int("okx%d" % _un[0]), Int("okn%d" % _un[0])
    z = size if z3.is_expr(size) else IntVal(size)
    whole = ok0(a, z) if z3.is_int_value(z) else Implies(z >= 0, ok0(a, z))
    return And(whole, ForAll([x, n], Implies(And(a <= x, x + n <= a + size, n >= 0), ok0(x, n)), patterns=[ok0(x, n)]))
def size_of(vc, typename): return vc.p.sizeof(vc.p.parse(typename))
def addr(a): return And(a > 0, a < 2**62)
def obj(vc, typename, a):
    """a is the address of an object of the type that the caller may use"""
    return And(addr(a), region(a, size_of(vc, typename)))
def offs(vc, typename, field): return vc.p.offset(typename, field)
def live(vc, st, a): return Select(vc.arr(st, ("g", "live")), a)
def nothing_leaked(c, but=()):
    """what is allocated at the end is what was at the start, except for these"""
    x = Int("lv")
    n, o = vcarr(c, c.st), vcarr(c, c.old)
    if z3.eq(n, o): return BoolVal(True)
    return FA([x], Or(Select(n, x) == Select(o, x), *[x == b for b in but]), Select(n, x))
def vcarr(c, st): return c.vc.arr(st, ("g", "live"))
def image32(vc, st, a): return Select(vc.arr(st, ("t", 4)), a)
def on_call(vc, typename, field, h):
    """calls through the record's field are handled by h"""
    vc.builtins["field:%s.%s" % (vc.p.key(typename, field)[1], field)] = h
def apart(*objs):
    """objects (address, size) that do not overlap"""
    return And(*[Or(a + x <= b, b + y <= a) for i, (a, x) in enumerate(objs) for b, y in objs[:i]])
def gmap(vc, st, key, a): return Select(vc.arr(st, key), a)
def gset(vc, st, key, a, v): st.mem[key] = Store(vc.arr(st, key), a, v if z3.is_expr(v) else IntVal(v)); st.written.add(key)
def same(vc, a, b, key):
    """the map is the same in both states"""
    x = Int("sm"); n, o = vc.arr(a, key), vc.arr(b, key)
    return BoolVal(True) if z3.eq(n, o) else FA([x], Select(n, x) == Select(o, x), Select(n, x))
def rec_mods(vc, typename, pred, fields=None):
    """the scalar fields of records (nested ones included) for whose address pred holds"""
    m = {}
    for key, off, ft in vc.p.leafs(vc.p.parse(typename)):
        if key is None: continue
        if key in m:
            p0 = m[key]; m[key] = lambda a, off=off, p0=p0: Or(p0(a), pred(a - off))
        else: m[key] = lambda a, off=off: pred(a - off)
    return m
def merge_mods(*ms):
    out = {}
    for m in ms:
        for k, p in m.items():
            if k not in out: out[k] = p
            elif p is True or out[k] is True: out[k] = True
            else: out[k] = lambda a, p=p, q=out[k]: Or(p(a), q(a))
    return out

def samechars(m, a, b, n):
    """n characters at a and at b are equal ignoring case"""
    x = Int("same_x")
    l = lambda y: low(sg(Select(m, y)))
    return And(ForAll([x], Implies(And(a <= x, x < a + n), l(x) == l(b + (x - a))), patterns=[Select(m, x)]),
               ForAll([x], Implies(And(b <= x, x < b + n), l(x) == l(a + (x - b))), patterns=[Select(m, x)]))
eqch = Function("eqch", A, A, A, BoolSort())   # by definition: samechars in the memory at the start
def h_comparelength(vc, st, vs, e, fv):
    """StringCompareLength by what is proved of it (P10), in a function that writes no characters"""
    a, b, n = vs
    m = vc.arr(st, B)
    for y in (a, b): vc.oblige(st, And(y > 0, Or(n == 0, vc.okf(st, y, n))), "the characters compared can be read", e)
    if not z3.eq(m, vc.arr(vc.cc.old, B)): raise Unsupported("characters written before a comparison")
    r = FInt("cmp"); st.path.append(And(r >= -2**31, r < 2**31, (r == 0) == eqch(a, b, n), eqch(a, b, n) == eqch(b, a, n)))
    if z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() <= 16:
        st.path.append(eqch(a, b, n) == And(*[low(sg(Select(m, a + k))) == low(sg(Select(m, b + k))) for k in range(z3.simplify(n).as_long())]))
    return [(st, r)]
STRINGS = {"fiftyoneDegreesStringCompareLength": h_comparelength}
