"""Lists of any capacity: list.c"""
from spec import *

LST, ITEM, COL, DATA = ["fiftyoneDegrees" + x for x in ("List", "CollectionItem", "Collection", "Data")]
REL = ("g", "released")      # how often the item at an address was released
def P(): return prog("list.c", "memory.c")
def L(vc, st, f, a): return fld(vc, st, LST, f, a)
def item_at(vc, items, n, a, lo=0):
    """a is the address of one of the items lo to n - 1"""
    z = size_of(vc, ITEM)
    return And(items + z * lo <= a, a < items + z * n, (a - items) % z == 0)
def list_pre(c, l):
    vc, st = c.vc, c.old
    items, n, cap = L(vc, st, "items", l), L(vc, st, "count", l), L(vc, st, "capacity", l)
    z = size_of(vc, ITEM)
    return [("the list", obj(vc, LST, l)), ("its items", And(n >= 0, n <= cap, cap < 2**32, items >= 0, items < 2**61, Implies(cap > 0, And(items > 0, region(items, z * cap), apart((l, size_of(vc, LST)), (items, z * cap)))), Implies(items == 0, cap == 0)))]

def released(name, frees):
    def pre(c):
        vc, st = c.vc, c.old
        items, n = L(vc, st, "items", c[0]), L(vc, st, "count", c[0])
        a = Int("ia"); ck = vc.p.key(ITEM, "collection")
        def rel(vc, st, vs, e, fv):
            """what a collection may do to the item given back"""
            it = vs[0]
            vc.oblige(st, item_at(vc, items, n, it), "only an item of the list is released", e)
            co = fld(vc, c.old, ITEM, "collection", it)
            vc.oblige(st, fv == fld(vc, c.old, COL, "release", co), "an item is released to its own collection", e)
            vc.oblige(st, gmap(vc, st, REL, it) == 0, "an item is released once", e)
            gset(vc, st, REL, it, gmap(vc, st, REL, it) + 1)
            for key, off, ft in vc.p.leafs(vc.p.parse(ITEM)):
                st.mem[key] = Store(vc.arr(st, key), it + off, FInt("item")); st.written.add(key)
            return [(st, IntVal(0))]
        on_call(vc, COL, "release", rel)
        return list_pre(c, c[0]) + [
            ("the items' collections", ForAll([a], Implies(item_at(vc, items, n, a), obj(vc, COL, Select(vc.arr(st, ck), a))), patterns=[Select(vc.arr(st, ck), a)])),
            ("none released yet", ForAll([a], gmap(vc, st, REL, a) == 0, patterns=[gmap(vc, st, REL, a)]))] + \
            ([("the items are allocated", Implies(items != 0, live(vc, st, items) == 1))] if frees else [])
    def post(c):
        vc, st = c.vc, c.st
        items, n = L(vc, c.old, "items", c[0]), L(vc, c.old, "count", c[0]); a = Int("ia")
        out = [("every item is released once", ForAll([a], Implies(item_at(vc, items, n, a), gmap(vc, st, REL, a) == 1), patterns=[gmap(vc, st, REL, a)])),
               ("nothing else is released", ForAll([a], Implies(Not(item_at(vc, items, n, a)), gmap(vc, st, REL, a) == 0), patterns=[gmap(vc, st, REL, a)])),
               ("the list is empty", L(vc, st, "count", c[0]) == 0)]
        if frees: out += [("the items are freed", Implies(items != 0, live(vc, st, items) == 0)), ("nothing else is", nothing_leaked(c, (items,))),
                          ("the list holds nothing", And(L(vc, st, "items", c[0]) == 0, L(vc, st, "capacity", c[0]) == 0))]
        else: out += [("the list can be filled again", And(L(vc, st, "items", c[0]) == items, L(vc, st, "capacity", c[0]) == L(vc, c.old, "capacity", c[0])))]
        return out
    def loop(c, sc):
        vc = c.vc; z = size_of(vc, ITEM)
        items, n = L(vc, c.old, "items", c[0]), L(vc, c.old, "count", c[0]); a = Int("ia")
        if n.get_id() is None: return []
        out = []
        def q(label, done):
            def f(s): return ForAll([a], gmap(vc, s, REL, a) == If(done(s, a), 1, 0), patterns=[gmap(vc, s, REL, a)])
            def g(s): return And(*[ForAll([a], Implies(And(item_at(vc, items, n, a), Not(done(s, a))), Select(vc.arr(s, k), a) == Select(vc.arr(c.old, k), a)), patterns=[Select(vc.arr(s, k), a)]) for k in (vc.p.key(ITEM, "collection"),)])
            out.append((label, f)); out.append((label + ": the others are as they were", g))
        for nm, v in sc.ints():
            q("released below %s" % nm, lambda s, a, v=v: item_at(vc, items, v(s), a))
            q("released from %s" % nm, lambda s, a, v=v: item_at(vc, items, n, a, v(s)))
            q("released after %s" % nm, lambda s, a, v=v: item_at(vc, items, n, a, v(s) + 1))
            out.append(("%s <= count" % nm, lambda s, v=v: v(s) <= n))
            out.append(("%s < count" % nm, lambda s, v=v: v(s) < n))
            out.append(("%s >= 0" % nm, lambda s, v=v: v(s) >= 0))
        for nm, v in sc.ptrs(vc.p.tu.records[vc.p.parse(ITEM).id]["name"]):
            q("released before %s" % nm, lambda s, a, v=v: And(item_at(vc, items, n, a), a < v(s)))
            q("released from %s" % nm, lambda s, a, v=v: And(item_at(vc, items, n, a), a >= v(s)))
            out.append(("%s in the items" % nm, lambda s, v=v: And(v(s) >= items, v(s) <= items + z * n, (v(s) - items) % z == 0)))
        return out
    def mods(c):
        vc = c.vc; items, n = L(vc, c.old, "items", c[0]), L(vc, c.old, "count", c[0])
        m = merge_mods(rec_mods(vc, ITEM, lambda a: item_at(vc, items, n, a)), {vc.p.key(LST, f): (lambda a: a == c[0]) for f in (("count",) if not frees else ("count", "items", "capacity"))})
        m[REL] = True
        if frees: m[("g", "live")] = True
        return m
    return Contract(name, pre, post, mods, loop=loop)

@unit("v_list_release", "P24", "fiftyoneDegreesListRelease", native="list_bounded", trusted=["a collection's release may change the item it gets and nothing else of the list"])
def _(u):
    con = released("fiftyoneDegreesListRelease", False)
    return [(VC(P(), [con], builtins=HEAP), con)]

@unit("v_list_free", "P24", "fiftyoneDegreesListFree", native="list_bounded", trusted=["a collection's release may change the item it gets and nothing else of the list", "free takes NULL or an allocated block, once"])
def _(u):
    con = released("fiftyoneDegreesListFree", True)
    return [(VC(P(), [con, released("fiftyoneDegreesListRelease", False)], builtins=HEAP), con)]

@unit("v_list_init", "P24", "fiftyoneDegreesListInit fiftyoneDegreesListReset", native="list_bounded", trusted=["malloc fails or gives a fresh block of the size asked for"])
def _(u):
    def mods(c): return {**{c.vc.p.key(LST, f): (lambda a: a == c[0]) for f in ("count", "items", "capacity")}, ("g", "live"): True}
    def pre(c): return [("the list", obj(c.vc, LST, c[0]))]
    def post(c):
        vc, st, r = c.vc, c.st, c.ret
        it = L(vc, st, "items", c[0])
        return [("a list with room for its capacity", Implies(r != 0, And(r == c[0], L(vc, st, "count", c[0]) == 0, L(vc, st, "capacity", c[0]) == c[1], live(vc, st, it) == 1, vc.okf(st, it, c[1] * size_of(vc, ITEM)), nothing_leaked(c, (it,))))),
                ("or none, with nothing owned", Implies(r == 0, And(L(vc, st, "count", c[0]) == 0, L(vc, st, "capacity", c[0]) == 0, it == 0, nothing_leaked(c), st.ghost.get("malloc_failed", 0) != 0)))]
    con = Contract("fiftyoneDegreesListInit", pre, post, mods)
    con2 = Contract("fiftyoneDegreesListReset", pre, lambda c: [("an empty list", And(*[L(c.vc, c.st, f, c[0]) == 0 for f in ("count", "items", "capacity")]))], mods)
    return [(VC(P(), [con], builtins=HEAP), con), (VC(P(), [con2], builtins=HEAP), con2)]

@unit("v_list_add", "P24", "fiftyoneDegreesListAdd fiftyoneDegreesListGetAsString", native="list_bounded")
def _(u):
    def pre(c):
        vc, st = c.vc, c.old; it, cap = L(vc, st, "items", c[0]), L(vc, st, "capacity", c[0]); z = size_of(vc, ITEM)
        return list_pre(c, c[0]) + [("there is room", L(vc, st, "count", c[0]) < cap), ("the item", And(obj(vc, ITEM, c[1]), fld(vc, st, ITEM, "collection", c[1]) > 0, apart((c[1], z), (it, z * cap), (c[0], size_of(vc, LST)))))]
    def post(c):
        vc, st = c.vc, c.st; it, n = L(vc, c.old, "items", c[0]), L(vc, c.old, "count", c[0]); at = it + size_of(vc, ITEM) * n
        return [("one more item", And(L(vc, st, "count", c[0]) == n + 1, L(vc, st, "items", c[0]) == it, L(vc, st, "capacity", c[0]) == L(vc, c.old, "capacity", c[0]))),
                ("which is the one given", And(*[Select(vc.arr(st, k), at + off) == Select(vc.arr(c.old, k), c[1] + off) for k, off, ft in vc.p.leafs(vc.p.parse(ITEM))]))]
    def mods(c):
        vc = c.vc; it, n = L(vc, c.old, "items", c[0]), L(vc, c.old, "count", c[0]); at = it + size_of(vc, ITEM) * n
        return merge_mods(rec_mods(vc, ITEM, lambda a: a == at), {vc.p.key(LST, "count"): lambda a: a == c[0]})
    con = Contract("fiftyoneDegreesListAdd", pre, post, mods)
    def gpre(c): return list_pre(c, c[0]) + [("an item of the list", And(c[1] >= 0, c[1] < L(c.vc, c.old, "count", c[0])))]
    def gpost(c):
        vc = c.vc; at = L(vc, c.old, "items", c[0]) + size_of(vc, ITEM) * c[1] + offs(vc, ITEM, "data")
        return [("the item's data", c.ret == fld(vc, c.old, DATA, "ptr", at))]
    con2 = Contract("fiftyoneDegreesListGetAsString", gpre, gpost)
    return [(VC(P(), [con], builtins=HEAP), con), (VC(P(), [con2], builtins=HEAP), con2)]
