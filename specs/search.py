"""Binary search over a collection of any size: collection.c"""
from spec import *

held, heldidx, failed, budget = G("held"), G("heldidx"), G("failed"), G("budget")
cmp = Function("cmp", A, A)          # what the comparer says of the item at an index

def b_get(c):
    def f(vc, st, vs, e, fv):
        col, idx, item, exc = vs
        vc.oblige(st, And(col == c[0], item == c[1], exc == c[6]), "get is called on the collection, with the item", e)
        vc.oblige(st, And(c[2] <= idx, idx <= c[3]), "only indices within the range are looked at", e)
        vc.oblige(st, held.get(vc, st) == 0, "no item is held when another is fetched", e)
        vc.oblige(st, budget.get(vc, st) >= 1, "at most logarithmically many items are fetched", e)
        budget.set(vc, st, budget.get(vc, st) / 2)
        bad = st.copy()
        failed.set(vc, bad, 1); v = FInt("status"); set_status(vc, bad, exc, v)
        r = FInt("ptr"); st.path.append(And(r > 0, r < 2**62))
        held.set(vc, st, 1); heldidx.set(vc, st, idx)
        return [(bad, IntVal(0)), (st, r)]
    return f

def b_compare(c):
    def f(vc, st, vs, e, fv):
        vc.oblige(st, fv == c[5], "the call is to the comparer", e)
        vc.oblige(st, And(vs[0] == c[4], vs[1] == c[1], vs[3] == c[6]), "the comparer gets the state, the item and the exception", e)
        vc.oblige(st, And(held.get(vc, st) == 1, heldidx.get(vc, st) == vs[2]), "the comparer gets the index of the item it gets", e)
        bad = st.copy()
        bad.path.append(c[6] != 0)
        v = FInt("status"); bad.path.append(v != status_not_set(vc)); set_status(vc, bad, c[6], v); failed.set(vc, bad, 1)
        rb = FInt("cmp"); bad.path.append(And(rb >= -2**31, rb < 2**31))
        r = FInt("cmp"); k = cmp(vs[2])
        st.path.append(And(r >= -2**31, r < 2**31, (r == 0) == (k == 0), (r > 0) == (k > 0)))
        return [(bad, rb), (st, r)]
    return f

def b_release(c):
    def f(vc, st, vs, e, fv):
        vc.oblige(st, And(vs[0] == c[1], held.get(vc, st) == 1), "only an item that is held is released", e)
        held.set(vc, st, 0)
        return [(st, IntVal(0))]
    return f

@unit("v_binary_search", "P05", "fiftyoneDegreesCollectionBinarySearch", native="binary_search_bounded",
      trusted=["the collection's get, release and the comparer by their contracts: get returns NULL or a held item without raising, the comparer is consistent with a sorted order or raises"])
def _(u):
    i, j = Int("i"), Int("j")
    def pre(c):
        vc, st = c.vc, c.old
        vc.builtins["field:%s.get" % vc.p.key("fiftyoneDegreesCollection", "get")[1]] = b_get(c)
        vc.builtins["field:%s.release" % vc.p.key("fiftyoneDegreesCollection", "release")[1]] = b_release(c)
        vc.builtins["var:*"] = b_compare(c)
        ex = vc.p.sizeof(vc.p.parse("fiftyoneDegreesException"))
        x, n = Int("okx"), Int("okn")
        def region(a, size): return ForAll([x, n], Implies(And(a <= x, x + n <= a + size), ok0(x, n)), patterns=[ok0(x, n)])
        it, co = vc.p.sizeof(vc.p.parse("fiftyoneDegreesCollectionItem")), vc.p.sizeof(vc.p.parse("fiftyoneDegreesCollection"))
        return [("range", And(c[2] >= 0, c[3] < 2**32 - 1)),
                ("objects", And(c[0] > 0, c[1] > 0, c[0] < 2**62, c[1] < 2**62, c[6] < 2**62, Or(c[1] + it <= c[0], c[0] + co <= c[1]))),
                ("readable", And(region(c[0], co), region(c[1], it), Implies(c[6] != 0, region(c[6], ex)))),
                ("no exception yet", okay(vc, st, c[6])),
                ("sorted", And(ForAll([i, j], Implies(And(c[2] <= i, i <= j, j <= c[3], cmp(i) > 0), cmp(j) > 0), patterns=[z3.MultiPattern(cmp(i), cmp(j))]),
                               ForAll([i, j], Implies(And(c[2] <= i, i <= j, j <= c[3], cmp(j) < 0), cmp(i) < 0), patterns=[z3.MultiPattern(cmp(i), cmp(j))]))),
                ("ghosts", And(held.get(vc, st) == 0, failed.get(vc, st) == 0, budget.get(vc, st) == If(c[3] >= c[2], c[3] - c[2] + 1, 0)))]
    def post(c):
        vc, st, r = c.vc, c.st, c.ret
        return [("a found index is in range and matches", Implies(r >= 0, And(c[2] <= r, r <= c[3], cmp(r) == 0))),
                ("the item found is held", Implies(r >= 0, And(held.get(vc, st) == 1, heldidx.get(vc, st) == r))),
                ("otherwise the answer is not found and nothing is held", Implies(r < 0, And(r == -1, held.get(vc, st) == 0))),
                ("not found only if no item matches or a step failed", Implies(r < 0, Or(failed.get(vc, st) == 1, ForAll([i], Implies(And(c[2] <= i, i <= c[3]), cmp(i) != 0), patterns=[cmp(i)])))),
                ("a failed step is never a match", Implies(failed.get(vc, st) == 1, r == -1))]
    def loop(c, sc):
        vc = c.vc
        out = [("nothing held", lambda s: held.get(vc, s) == 0), ("nothing failed", lambda s: failed.get(vc, s) == 0),
               ("no exception", lambda s: okay(vc, s, c[6])), ("budget", lambda s: budget.get(vc, s) >= 0)]
        for n, v in sc.ints():
            out.append(("no match below %s" % n, lambda s, v=v: ForAll([i], Implies(And(c[2] <= i, i < v(s)), cmp(i) != 0), patterns=[cmp(i)])))
            out.append(("no match above %s" % n, lambda s, v=v: ForAll([i], Implies(And(v(s) < i, i <= c[3]), cmp(i) != 0), patterns=[cmp(i)])))
            out.append(("no match from %s" % n, lambda s, v=v: ForAll([i], Implies(And(v(s) <= i, i <= c[3]), cmp(i) != 0), patterns=[cmp(i)])))
            out.append(("%s not below the range" % n, lambda s, v=v: v(s) >= c[2]))
            out.append(("%s not above the range" % n, lambda s, v=v: v(s) <= c[3]))
            out.append(("%s at most one above the range" % n, lambda s, v=v: v(s) <= c[3] + 1))
            for n2, v2 in sc.ints():
                if n2 != n:
                    out.append(("%s..%s within budget" % (n, n2), lambda s, v=v, v2=v2: v2(s) - v(s) + 1 <= budget.get(vc, s)))
                    out.append(("%s..%s within budget, half open" % (n, n2), lambda s, v=v, v2=v2: v2(s) - v(s) <= budget.get(vc, s)))
                    out.append(("%s <= %s" % (n, n2), lambda s, v=v, v2=v2: v(s) <= v2(s)))
        return out
    def mods(c):
        m = exc_mods(c.vc, c[6])
        for g in (held, heldidx, failed, budget): m[g.key] = True
        d = c.vc.p.parse("fiftyoneDegreesData")
        for key in ("ptr", "allocated", "used"): m[c.vc.p.key("fiftyoneDegreesData", key)] = lambda a: a == c[1] + c.vc.p.offset("fiftyoneDegreesCollectionItem", "data")
        return m
    con = Contract("fiftyoneDegreesCollectionBinarySearch", pre, post, mods, loop=loop)
    return [(VC(prog("collection.c", "data.c"), [con]), con)]
