"""Override values and properties of any number: overrides.c"""
from spec import *

VAL, VALS, DATA, ITEM, STR = "fiftyoneDegreesOverrideValue", "fiftyoneDegreesOverrideValueArray", "fiftyoneDegreesData", "fiftyoneDegreesCollectionItem", "fiftyoneDegreesString"
AVS, AV = "fiftyoneDegreesPropertiesAvailable", "fiftyoneDegreesPropertyAvailable"
def P(): return prog("overrides.c", "data.c")
def rn(vc, t): return vc.p.tu.records[vc.p.parse(t).id]["name"]
def V(vc, st, f, a): return fld(vc, st, VALS, f, a)
def at(vc, st, vals, i): return V(vc, st, "items", vals) + size_of(vc, VAL) * i
def idx(vc, st, vals, i): return fld(vc, st, VAL, "requiredPropertyIndex", at(vc, st, vals, i))
def D(vc, st, f, a): return fld(vc, st, DATA, f, a + offs(vc, VAL, "string"))
def vals_ok(vc, st, v):
    it, n, cap = (V(vc, st, f, v) for f in ("items", "count", "capacity")); z = size_of(vc, VAL)
    return And(obj(vc, VALS, v), n >= 0, n <= cap, cap < 2**31, it >= 0, it < 2**61, Implies(cap > 0, And(it > 0, region(it, z * cap), apart((it, z * cap), (v, size_of(vc, VALS))))))
i = Int("i")
def scan(c, sc, bad, count, items, z, rec):
    out = []
    for n, v in sc.ints():
        out += [("none below %s" % n, lambda s, v=v: ForAll([i], Implies(And(0 <= i, i < v(s)), Not(bad(i))))), ("%s at most the count" % n, lambda s, v=v: v(s) <= count), ("%s at least 0" % n, lambda s, v=v: v(s) >= 0)]
    for n, v in sc.ptrs(rec):
        out += [("none before %s" % n, lambda s, v=v: ForAll([i], Implies(And(0 <= i, items + z * i < v(s)), Not(bad(i))))), ("%s in the items" % n, lambda s, v=v: And(v(s) >= items, v(s) <= items + z * count, (v(s) - items) % z == 0))]
    return out

@unit("v_override_get", "P19", "fiftyoneDegreesOverrideValuesGetFirst fiftyoneDegreesOverrideHasValueForRequiredPropertyIndex", native="overrides_bounded")
def _(u):
    def bad(c): return lambda i: idx(c.vc, c.old, c[0], i) == c[1]
    def cnt(c): return V(c.vc, c.old, "count", c[0])
    def pre0(c): return [("the values, or NULL", Implies(c[0] != 0, vals_ok(c.vc, c.old, c[0])))]
    def pre(c):
        vc = c.vc; z = size_of(vc, VAL)
        return pre0(c) + [("the item", And(obj(vc, ITEM, c[2]), Implies(c[0] != 0, apart((c[2], size_of(vc, ITEM)), (V(vc, c.old, "items", c[0]), z * V(vc, c.old, "capacity", c[0])), (c[0], size_of(vc, VALS))))))]
    def loop(c, sc):
        vc = c.vc
        return scan(c, sc, bad(c), cnt(c), V(vc, c.old, "items", c[0]), size_of(vc, VAL), rn(vc, VAL))
    def none(c): return Or(c[0] == 0, ForAll([i], Implies(And(0 <= i, i < cnt(c)), Not(bad(c)(i)))))
    def has(c): return And(c[0] != 0, Exists([i], And(0 <= i, i < cnt(c), bad(c)(i))))
    con = Contract("fiftyoneDegreesOverrideHasValueForRequiredPropertyIndex", pre0, lambda c: [("overridden if and only if there is a value for it", And(Implies(c.ret != 0, has(c)), Implies(c.ret == 0, none(c))))], loop=loop)
    def post(c):
        vc, st = c.vc, c.st; k = Int("k")
        p = lambda i: D(vc, c.old, "ptr", at(vc, c.old, c[0], i))
        dat = c[2] + offs(vc, ITEM, "data")
        found = Exists([i], And(0 <= i, i < cnt(c), bad(c)(i), ForAll([k], Implies(And(0 <= k, k < i), Not(bad(c)(k)))), c.ret == p(i), fld(vc, st, DATA, "ptr", dat) == p(i), fld(vc, st, DATA, "allocated", dat) == 0))
        return [("the value for it, without its memory, or NULL if there is none", Or(And(c[0] != 0, found), And(c.ret == 0, none(c))))]
    con2 = Contract("fiftyoneDegreesOverrideValuesGetFirst", pre, post, lambda c: rec_mods(c.vc, ITEM, lambda a: a == c[2]), loop=loop)
    return [(VC(P(), [con]), con), (VC(P(), [con2]), con2)]

def h_strlen(known):
    """strlen of a string whose length the precondition names"""
    def f(vc, st, vs, e, fv):
        out = IntVal(0)
        vc.oblige(st, Or(*[vs[0] == a for a, n in known(vc)]), "strlen gets a string", e)
        for a, n in known(vc): out = If(vs[0] == a, n, out)
        return [(st, out)]
    return f

@unit("v_override_add", "P19", "fiftyoneDegreesOverridesAdd fiftyoneDegreesDataMalloc", native="overrides_bounded overrides_long_bounded overrides_faults",
      trusted=["strlen and memcpy as in the C standard", "malloc fails or gives a fresh block of the size asked for", "free takes NULL or an allocated block, once"])
def _(u):
    n, k, b = Int("vlen"), Int("k"), Int("b")
    OWN = ("g", "owner")           # the entry whose string a block holds
    def bad(c): return lambda i: idx(c.vc, c.old, c[0], i) == c[1]
    def cnt(c): return V(c.vc, c.old, "count", c[0])
    def cap(c): return V(c.vc, c.old, "capacity", c[0])
    def entry(c, a, lo=0):
        it = V(c.vc, c.old, "items", c[0]); z = size_of(c.vc, VAL)
        return And(it + z * lo <= a, a < it + z * cap(c), (a - it) % z == 0)
    def own(c, b): return Select(c.vc.arr(c.old, OWN), b)
    def pre(c):
        vc, st = c.vc, c.old; m = vc.arr(st, B); d = Int("ed"); o = offs(vc, VAL, "string"); p, sz = fld(vc, st, DATA, "ptr", d), fld(vc, st, DATA, "allocated", d)
        x, y = Int("ox"), Int("oy")
        return [("the values", vals_ok(vc, st, c[0])),
                ("the text", And(addr(c[2]), n >= 0, n < 2**61, c[2] + n < 2**62, Select(m, c[2] + n) == 0, region(c[2], n + 1))),
                ("the strings of the values", FA([d], Implies(And(entry(c, d - o), sz != 0), And(p > 0, p < 2**61, sz >= 0, sz < 2**32, live(vc, st, p) == 1, own(c, p) == d, ForAll([x, y], Implies(And(p <= x, x + y <= p + sz, y >= 0), ok0(x, y)), patterns=[ok0(x, y)]),
                    apart((p, sz), (V(vc, st, "items", c[0]), size_of(vc, VAL) * cap(c)), (c[0], size_of(vc, VALS)), (c[2], n + 1)))), p, sz)),
                ("no memory taken is none", FA([d], Implies(entry(c, d - o), And(sz >= 0, Implies(sz == 0, p == 0))), sz, p)),
                ("apart", apart((c[2], n + 1), (V(vc, st, "items", c[0]), size_of(vc, VAL) * cap(c)), (c[0], size_of(vc, VALS))))]
    def post(c):
        vc, st = c.vc, c.st; m = vc.arr(st, B); m0 = vc.arr(c.old, B); e = at(vc, c.old, c[0], i); z = size_of(vc, VAL)
        p = D(vc, st, "ptr", e); cn = V(vc, st, "count", c[0])
        ok = Exists([i], And(0 <= i, i < cap(c), i <= cnt(c), ForAll([k], Implies(And(0 <= k, k < i), Not(bad(c)(k)))), Or(i == cnt(c), bad(c)(i)), cn == If(i == cnt(c), cnt(c) + 1, cnt(c)),
            idx(vc, st, c[0], i) == c[1], p != 0, live(vc, st, p) == 1, D(vc, st, "allocated", e) >= n + size_of(vc, STR), fld(vc, st, STR, "size", p) == n + 1,
            ForAll([k], Implies(And(0 <= k, k <= n), Select(m, p + offs(vc, STR, "value") + k) == Select(m0, c[2] + k))),
            ForAll([k], Implies(And(0 <= k, k < cap(c), k != i), And(idx(vc, st, c[0], k) == idx(vc, c.old, c[0], k), *[D(vc, st, f, at(vc, c.old, c[0], k)) == D(vc, c.old, f, at(vc, c.old, c[0], k)) for f in ("ptr", "allocated")])))))
        d = Int("ed"); o = offs(vc, VAL, "string")
        return [("the value is the text, for the property alone", Implies(c.ret != 0, ok)),
                ("only a text that fits is taken", Implies(c.ret != 0, And(n < 32767, c[1] >= 0))),
                ("refused if it can not be kept", Implies(Or(c[1] < 0, n >= 32767, And(cnt(c) == cap(c), ForAll([i], Implies(And(0 <= i, i < cnt(c)), Not(bad(c)(i)))))), And(c.ret == 0, cn == cnt(c)))),
                ("and only then, or for want of memory", Implies(c.ret == 0, Or(st.ghost.get("malloc_failed", 0) != 0, c[1] < 0, n >= 32767, And(cnt(c) == cap(c), ForAll([i], Implies(And(0 <= i, i < cnt(c)), Not(bad(c)(i)))))))),
                ("nothing refers to freed memory", FA([d], Implies(And(entry(c, d - o), fld(vc, st, DATA, "allocated", d) > 0), live(vc, st, fld(vc, st, DATA, "ptr", d)) == 1), fld(vc, st, DATA, "allocated", d)))]
    def mods(c):
        vc = c.vc
        m = rec_mods(vc, VAL, lambda a: entry(c, a))
        m[vc.p.key(VALS, "count")] = lambda a: a == c[0]
        m[("g", "live")] = True; a = Int("ea")
        def inown(x): return Exists([a], And(entry(c, a), D(vc, c.old, "allocated", a) > 0, D(vc, c.old, "ptr", a) <= x, x < D(vc, c.old, "ptr", a) + D(vc, c.old, "allocated", a)))
        m[B] = inown; m[vc.p.key(STR, "size")] = inown
        return m
    def loop(c, sc): return scan(c, sc, bad(c), cnt(c), V(c.vc, c.old, "items", c[0]), size_of(c.vc, VAL), rn(c.vc, VAL))
    con = Contract("fiftyoneDegreesOverridesAdd", pre, post, mods, loop=loop)
    b = dict(HEAP); 
    vc = VC(P(), [con], builtins=b)
    b = vc.builtins; b["strlen"] = h_strlen(lambda vc: [(Int("arg2"), n)])
    return [(vc, con)]

pfx = Function("pfx", A, A, BoolSort())     # by definition: starts(a, b) in the memory at the start
@unit("v_override_overriding", "P19", "fiftyoneDegreesOverridesGetOverridingRequiredPropertyIndex startsWith", native="overrides_evidence_bounded")
def _(u):
    x, y = Int("x"), Int("y")
    def sz(vc, st, a): return fld(vc, st, STR, "size", a)
    def txt(vc, a): return a + offs(vc, STR, "value")
    def starts(c, a, b):
        vc, st = c.vc, c.old; m = vc.arr(st, B)
        same = lambda n: And(ForAll([x], Implies(And(txt(vc, a) <= x, x < txt(vc, a) + n), Select(m, x) == Select(m, txt(vc, b) + (x - txt(vc, a)))), patterns=[Select(m, x)]))
        return And(sz(vc, st, a) > sz(vc, st, b), same(sz(vc, st, b) - 1))
    def upto(c, a, b, n):
        vc, st = c.vc, c.old; m = vc.arr(st, B)
        return ForAll([x], Implies(And(txt(vc, a) <= x, x < txt(vc, a) + n), Select(m, x) == Select(m, txt(vc, b) + (x - txt(vc, a)))), patterns=[Select(m, x)])
    def string(vc, st, a): return And(addr(a), sz(vc, st, a) >= 1, sz(vc, st, a) < 2**15, ok0(a, 2), ok0(a, IntVal(size_of(vc, STR))), ForAll([x, y], Implies(And(txt(vc, a) <= x, y >= 0, x + y <= txt(vc, a) + sz(vc, st, a)), ok0(x, y)), patterns=[ok0(x, y)]))
    con = Contract("startsWith", lambda c: [("strings", And(string(c.vc, c.old, c[0]), string(c.vc, c.old, c[1])))],
        lambda c: [("the text begins with the prefix and is longer", (c.ret != 0) == starts(c, c[0], c[1]))],
        loop=lambda c, sc: [t for n, v in sc.ints() for t in (("equal below %s" % n, lambda s, v=v: upto(c, c[0], c[1], v(s))), ("%s at least 0" % n, lambda s, v=v: v(s) >= 0), ("%s at most the prefix" % n, lambda s, v=v: v(s) <= sz(c.vc, c.old, c[1]) - 1))] +
            [t for n, v in sc.charptrs() for k in (0, 1) for t in (("equal before %s" % n, lambda s, v=v, k=k: upto(c, c[0], c[1], v(s) - txt(c.vc, c[k]))), ("%s in the text" % n, lambda s, v=v, k=k: And(v(s) >= txt(c.vc, c[k]), v(s) <= txt(c.vc, c[k]) + sz(c.vc, c.old, c[1]) - 1)))])
    use = Contract("startsWith", con.pre, lambda c: [("by definition of pfx", (c.ret != 0) == pfx(c[0], c[1]))])
    def nm(c, i):
        vc = c.vc
        return fld(vc, c.old, DATA, "ptr", fld(vc, c.old, AVS, "items", c[0]) + size_of(vc, AV) * i + offs(vc, AV, "name") + offs(vc, ITEM, "data"))
    def cnt(c): return fld(c.vc, c.old, AVS, "count", c[0])
    def bad(c): return lambda i: And(i != c[1], pfx(nm(c, i), nm(c, c[1])))
    def pre(c):
        vc, st = c.vc, c.old; it = fld(vc, st, AVS, "items", c[0])
        return [("the properties", And(obj(vc, AVS, c[0]), cnt(c) >= 0, cnt(c) < 2**31, addr(it), region(it, size_of(vc, AV) * cnt(c)))), ("one of them", And(c[1] >= 0, c[1] < cnt(c))),
                ("their names", FA([i], Implies(And(0 <= i, i < cnt(c)), string(vc, st, nm(c, i))), nm(c, i)))]
    def post(c):
        none = lambda n: ForAll([i], Implies(And(0 <= i, i < n), Not(bad(c)(i))))
        return [("the first property whose name begins with the name of this one", Implies(c.ret >= 0, And(c.ret < cnt(c), bad(c)(c.ret), none(c.ret)))), ("or none, if there is none", Implies(c.ret < 0, And(c.ret == -1, none(cnt(c)))))]
    con2 = Contract("fiftyoneDegreesOverridesGetOverridingRequiredPropertyIndex", pre, post, loop=lambda c, sc: scan(c, sc, bad(c), cnt(c), fld(c.vc, c.old, AVS, "items", c[0]), size_of(c.vc, AV), rn(c.vc, AV)))
    return [(VC(P(), [con]), con), (VC(P(), [con2, use]), con2)]
