"""The pool under any interleaving of gets and releases (rely and guarantee), its set up and its end: pool.c"""
from spec import *

POOL, ITEM, HEAD = "fiftyoneDegreesPool", "fiftyoneDegreesPoolItem", "fiftyoneDegreesPoolHead"
FREE, RANK = ("g", "free"), ("g", "rank")      # is item i in the stack, and how far from its end
RES = ("g", "resources")                       # resources made and not freed
trig = z3.Function("trig", IntSort(), z3.BoolSort())   # guides the solver; the argument holds for any such predicate
TRIG = [ForAll([Int("tx")], trig(Int("tx")), patterns=[trig(Int("tx"))])]
STEPS, TAKEN = G("steps"), G("taken")
def P(): return prog("pool.c")
def F(vc, st, f, a): return fld(vc, st, POOL, f, a)
def Z(vc): return size_of(vc, ITEM)
def headkey(vc, f):
    n = vc.p.tu.records[vc.p.parse(HEAD).id]["name"]
    return ("f", n + ".values", f)
def head(vc, st, pool, f): return gmap(vc, st, headkey(vc, f), pool + offs(vc, POOL, "head"))
def item(vc, st, pool, i): return F(vc, st, "stack", pool) + Z(vc) * i
def nxt(vc, st, pool, i): return fld(vc, st, ITEM, "next", item(vc, st, pool, i))
def inv(vc, st, pool, free=None, rank=None):
    """the stack: from the head down to the null item, each free item once"""
    i, j = Int("pi"), Int("pj")
    free = free or (lambda i: gmap(vc, st, FREE, i) != 0); rank = rank or (lambda i: gmap(vc, st, RANK, i))
    n, h = F(vc, st, "count", pool), head(vc, st, pool, "index")
    nx = nxt(vc, st, pool, i)
    return [("the head is in the stack", And(h >= 0, h <= n, Or(h == 0, free(h)))),
            ("a counter", And(head(vc, st, pool, "aba") >= 0, head(vc, st, pool, "aba") < 2**16)),
            ("the null item is the end", And(rank(IntVal(0)) == 0, Not(free(IntVal(0))))),
            ("each free item links to another", FA([i], Implies(And(trig(i), free(i)), And(i >= 1, i <= n, nx >= 0, nx <= n, Or(nx == 0, free(nx)), rank(i) == rank(nx) + 1, rank(i) >= 1, rank(i) <= rank(h))), trig(i))),
            ("and no two to the same", FA([i, j], Implies(And(trig(i), trig(j), free(i), free(j), rank(i) == rank(j)), i == j), z3.MultiPattern(trig(i), trig(j))))]
def pool_ok(vc, st, pool):
    i = Int("pi")
    s, n = F(vc, st, "stack", pool), F(vc, st, "count", pool)
    res = fld(vc, st, ITEM, "resource", item(vc, st, pool, i))
    return [("the pool", obj(vc, POOL, pool)), ("its items", And(addr(s), n >= 0, n < 2**16, region(s, Z(vc) * (n + 1)), apart((pool, size_of(vc, POOL)), (s, Z(vc) * (n + 1))))),
            ("their resources", FA([i], Implies(And(i >= 0, i <= n), (res == 0) == (i == 0)), res)),
            ("their pool", FA([i], Implies(And(i >= 0, i <= n), fld(vc, st, ITEM, "pool", item(vc, st, pool, i)) == pool), fld(vc, st, ITEM, "pool", item(vc, st, pool, i))))]
def rely(vc, st, pool, mine):
    """other threads take items and give back their own: the counter tells"""
    for k in (FREE, RANK, headkey(vc, "index"), headkey(vc, "aba")):
        n = FArr("rely"); o = vc.arr(st, k)
        if k[0] == "f":
            a = Int(fresh("ra")); st.path.append(ForAll([a], Implies(a != pool + offs(vc, POOL, "head"), Select(n, a) == Select(o, a)), patterns=[Select(n, a)]))
        st.mem[k] = n; st.written.add(k)
    k = vc.p.key(ITEM, "next"); n = FArr("rely"); o = vc.arr(st, k)
    if mine is not None: st.path += [Select(n, mine[1]) == Select(o, mine[1]), gmap(vc, st, FREE, mine[0]) == 0]
    st.mem[k] = n; st.written.add(k)
    for l, f in inv(vc, st, pool): st.path.append(f)
def cas(pool_of, step, mine=lambda c: None):
    def h(vc, st, vs, e, fv):
        c = vc.cc; pool = pool_of(c)
        rec = vc.p.tu.records[vc.p.parse(HEAD).id]; ft = vc.p.union(rec)[1]
        at = pool + offs(vc, POOL, "head")
        vc.oblige(st, vs[0] == at, "the pool's head is exchanged", e)
        for l, f in inv(vc, st, pool): vc.oblige(st, f, "between steps: " + l, e)
        aba = head(vc, st, pool, "aba"); st.path.append(trig(head(vc, st, pool, "index")))
        o = st.copy(); rely(vc, o, pool, mine(c)); o.path += [head(vc, o, pool, "aba") != aba, trig(head(vc, o, pool, "index"))]
        out = []
        for s in (st, o):
            cur = vc.union_get(s, rec, at, ft)
            for s2, b in vc.branch(s, cur == vs[1]):
                if b:
                    a0, i0 = head(vc, s2, pool, "aba"), head(vc, s2, pool, "index")
                    vc.oblige(s2, STEPS.get(vc, s2) == 0, "one step only", e)
                    STEPS.set(vc, s2, 1)
                    s3 = s2.copy()
                    vc.union_set(s2, rec, at, ft, vs[2])
                    step(vc, c, s3, s2, i0, e)
                    vc.oblige(s2, head(vc, s2, pool, "aba") == (a0 + 1) % 65536, "the counter tells that the head changed", e)
                out.append((s2, cur))
        return out
    return {"__sync_val_compare_and_swap_8": h, "__sync_val_compare_and_swap_4": h}
TRUST = ["other threads only use PoolItemGet, and PoolItemRelease for items they hold; fewer than 65536 of their steps fall between reading the head and the exchange (16 bit counter)",
         "reads of the head are one atomic step; what is read between the head and an exchange that fails is not used", "sequential consistency of the exchange"]
def inv_loop(pool_of, more=lambda vc: []):
    def loop(c, sc):
        vc = c.vc
        out = [(l, lambda s, n=n: inv(vc, s, pool_of(c))[n][1]) for n, (l, f) in enumerate(inv(vc, c.old, pool_of(c)))]
        exc = c.args[1] if len(c.args) > 1 else None
        return out + [("no step yet", lambda s: STEPS.get(vc, s) == 0)] + ([("no exception yet", lambda s: okay(vc, s, exc))] if exc is not None else []) + more(vc)
    return loop
def shared_mods(c):
    vc = c.vc
    return {**{k: True for k in (FREE, RANK, STEPS.key, TAKEN.key, headkey(vc, "index"), headkey(vc, "aba"), vc.p.key(ITEM, "next"))},
            ("f", vc.p.tu.records[vc.p.parse(HEAD).id]["name"], "exchange#rest"): True}

@unit("v_pool_get", "P08", "fiftyoneDegreesPoolItemGet", native="pool_bounded pool_interference_bounded pool_limits", trusted=TRUST)
def _(u):
    name = "fiftyoneDegreesPoolItemGet"
    def pre(c):
        vc, st = c.vc, c.old
        return pool_ok(vc, st, c[0]) + inv(vc, st, c[0]) + [("no step yet", STEPS.get(vc, st) == 0), ("an exception", Or(c[1] == 0, And(obj(vc, "fiftyoneDegreesException", c[1]), status(vc, st, c[1]) == status_not_set(vc))))]
    def step(vc, c, o, n, h, e):
        vc.oblige(n, gmap(vc, o, FREE, h) != 0, "an item is taken from the stack", e)
        vc.oblige(n, head(vc, n, c[0], "index") == nxt(vc, o, c[0], h), "the head moves to the item after it", e)
        gset(vc, n, FREE, h, 0); TAKEN.set(vc, n, h)
    def post(c):
        vc, st, r = c.vc, c.st, c.ret; i = Int("pi"); t = TAKEN.get(vc, st); n = F(vc, st, "count", c[0])
        return [("an item that is taken now", Implies(r != 0, And(STEPS.get(vc, st) == 1, t >= 1, t <= n, r == item(vc, st, c[0], t), gmap(vc, st, FREE, t) == 0))),
                ("with its resource", Implies(r != 0, fld(vc, st, ITEM, "resource", r) != 0)),
                ("none only when none is free", Implies(r == 0, And(STEPS.get(vc, st) == 0, FA([i], Implies(trig(i), gmap(vc, st, FREE, i) == 0), trig(i))))),
                ("which is reported", Implies(And(r == 0, c[1] != 0), status(vc, st, c[1]) == enum(vc, "FIFTYONE_DEGREES_STATUS_INSUFFICIENT_HANDLES"))),
                ("and nothing else is", Implies(And(r != 0, c[1] != 0), okay(vc, st, c[1])))] + inv(vc, st, c[0])
    con = Contract(name, pre, post, lambda c: {**shared_mods(c), **exc_mods(c.vc, c[1])}, loop=inv_loop(lambda c: c[0]))
    return [(VC(P(), [con], builtins=cas(lambda c: c[0], step)), con)]

@unit("v_pool_release", "P08", "fiftyoneDegreesPoolItemRelease", native="pool_bounded pool_interference_bounded pool_limits", trusted=TRUST)
def _(u):
    name = "fiftyoneDegreesPoolItemRelease"
    POOLV, K = Int("the_pool"), Int("the_item")
    def pre(c):
        vc, st = c.vc, c.old
        return pool_ok(vc, st, POOLV) + inv(vc, st, POOLV) + [("an item of the pool", And(K >= 1, K <= F(vc, st, "count", POOLV), c[0] == item(vc, st, POOLV, K))), ("that is taken", gmap(vc, st, FREE, K) == 0), ("no step yet", STEPS.get(vc, st) == 0)]
    def step(vc, c, o, n, h, e):
        vc.oblige(n, head(vc, n, POOLV, "index") == K, "the head is the item given back", e)
        vc.oblige(n, nxt(vc, o, POOLV, K) == h, "which links to the head before", e)
        gset(vc, n, FREE, K, 1); gset(vc, n, RANK, K, gmap(vc, o, RANK, h) + 1)
    def post(c):
        vc, st = c.vc, c.st
        return [("the item is free, once", And(STEPS.get(vc, st) == 1, gmap(vc, st, FREE, K) != 0))] + inv(vc, st, POOLV)
    con = Contract(name, pre, post, shared_mods, loop=inv_loop(lambda c: POOLV, lambda vc: [("it is taken", lambda s: gmap(vc, s, FREE, K) == 0)]))
    return [(VC(P(), [con], builtins=cas(lambda c: POOLV, step, lambda c: (K, c[0]))), con)]

MADE = ("g", "made")       # 1: made for the pool and not freed yet
def made_h(vc, st, vs, e, fv):
    """makes a new resource, or sets the exception and gives NULL"""
    c = vc.cc; exc = vs[2]
    vc.oblige(st, vs[0] == c[0], "resources are made for this pool", e)
    vc.oblige(st, okay(vc, st, exc), "no more resources are made after a failure", e)
    bad = st.copy(); set_status(vc, bad, exc, FInt("failed")); bad.path.append(Not(okay(vc, bad, exc)))
    r = FInt("res"); st.path += [r > 0, r < 2**62, gmap(vc, st, MADE, r) == 0]; gset(vc, st, MADE, r, 1)
    return [(st, r), (bad, IntVal(0))]
def free_h(vc, st, vs, e, fv):
    vc.oblige(st, And(vs[0] == vc.cc[0], gmap(vc, st, MADE, vs[1]) == 1), "a resource that was made, and not freed before, is freed", e)
    gset(vc, st, MADE, vs[1], 0)
    return [(st, IntVal(0))]
def owned(vc, st, pool, n, lo=0):
    """the items lo to n hold no resource, or each a different one that was made"""
    i, j = Int("pi"), Int("pj")
    res = lambda i: fld(vc, st, ITEM, "resource", item(vc, st, pool, i))
    return [("resources that were made", FA([i], Implies(And(trig(i), lo <= i, i <= n, res(i) != 0), gmap(vc, st, MADE, res(i)) == 1), trig(i))),
            ("each its own", FA([i, j], Implies(And(trig(i), trig(j), lo <= i, i < j, j <= n, res(i) != 0), res(i) != res(j)), z3.MultiPattern(trig(i), trig(j))))]
def none_made(vc, st):
    r = Int("pr")
    return FA([r], gmap(vc, st, MADE, r) == 0, gmap(vc, st, MADE, r))
"""Every resource that was made is in an item: WHERE gives which."""
WHERE = ("g", "where")
@unit("v_pool_init", "P08", "fiftyoneDegreesPoolInit", native="pool_bounded pool_limits", trusted=["the creator gives a new resource, or sets the exception and gives NULL", "malloc fails or gives a fresh block of the size asked for"])
def _(u):
    name = "fiftyoneDegreesPoolInit"
    def creator(vc, st, vs, e, fv):
        out = made_h(vc, st, vs, e, fv)
        return out
    def pre(c):
        vc, st = c.vc, c.old
        return [("the pool", obj(vc, POOL, c[0])), ("an exception", And(obj(vc, "fiftyoneDegreesException", c[5]), status(vc, st, c[5]) == status_not_set(vc), apart((c[0], size_of(vc, POOL)), (c[5], size_of(vc, "fiftyoneDegreesException"))))),
                ("nothing made yet", none_made(vc, st))]
    def wher(vc, st, pool, n):
        r = Int("pr"); w = gmap(vc, st, WHERE, r)
        return FA([r], Implies(gmap(vc, st, MADE, r) != 0, And(gmap(vc, st, MADE, r) == 1, w >= 1, w <= n, fld(vc, st, ITEM, "resource", item(vc, st, pool, w)) == r)), gmap(vc, st, MADE, r))
    def chain(vc, st, pool, n):
        i = Int("pi")
        return [("item links to the one before", FA([i], Implies(And(trig(i), i >= 1, i <= n), And(nxt(vc, st, pool, i) == i - 1, fld(vc, st, ITEM, "pool", item(vc, st, pool, i)) == pool)), trig(i))),
                ("the null item", And(fld(vc, st, ITEM, "resource", item(vc, st, pool, IntVal(0))) == 0, fld(vc, st, ITEM, "pool", item(vc, st, pool, IntVal(0))) == pool))]
    def post(c):
        vc, st = c.vc, c.st; i = Int("pi"); p = c[0]; n = F(vc, st, "count", p); s = F(vc, st, "stack", p)
        fine = okay(vc, st, c[5])
        st.path += [trig(IntVal(0))]
        full = [("a full stack: " + l, Implies(fine, f)) for l, f in inv(vc, st, p, lambda i: And(i >= 1, i <= n), lambda i: i)]
        res = lambda i: fld(vc, st, ITEM, "resource", item(vc, st, p, i))
        return [("the pool asked for", c.ret == p), ("of the size asked for", Implies(fine, And(n == c[1], s != 0))),
                ("every item has a resource", Implies(fine, FA([i], Implies(And(trig(i), i >= 0, i <= n), (res(i) == 0) == (i == 0)), trig(i)))),
                ("nothing is lost without memory", Implies(s == 0, And(Not(fine), none_made(vc, st), n == 0))),
                ("the freer is kept", F(vc, st, "resourceFree", p) == c[4]),
                ("every resource made is in the pool", Implies(s != 0, wher(vc, st, p, n)))] + \
            [(l, Implies(s != 0, f)) for l, f in owned(vc, st, p, n) + chain(vc, st, p, n)] + \
            [("its memory", Implies(s != 0, And(live(vc, st, s) == 1, vc.okf(st, s, (n + 1) * Z(vc)), nothing_leaked(c, (s,))))), ("or none", Implies(s == 0, nothing_leaked(c)))] + full
    def loop(c, sc):
        vc = c.vc; p = c[0]; out = []
        n = lambda s: F(vc, s, "count", p)
        for k in range(2): out.append((owned(vc, c.old, p, 0)[k][0], lambda s, k=k: owned(vc, s, p, n(s))[k][1]))
        for k in range(2): out.append((chain(vc, c.old, p, IntVal(0))[k][0], lambda s, k=k: chain(vc, s, p, n(s))[k][1]))
        out.append(("where", lambda s: wher(vc, s, p, n(s))))
        out.append(("about", lambda s: And(trig(n(s)), trig(n(s) + 1), trig(IntVal(0)))))
        i = Int("pi")
        def res(s, i): return fld(vc, s, ITEM, "resource", item(vc, s, p, i))
        out.append(("all but the last have a resource", lambda s: FA([i], Implies(And(trig(i), i >= 1, i < n(s)), res(s, i) != 0), trig(i))))
        out.append(("and the last too", lambda s: Implies(And(okay(vc, s, c[5]), n(s) >= 1), res(s, n(s)) != 0)))
        out.append(("head", lambda s: And(head(vc, s, p, "index") == n(s), n(s) <= c[1])))
        out.append(("aba", lambda s: head(vc, s, p, "aba") == 0))
        for nm, v in sc.ints():
            out.append(("%s counts" % nm, lambda s, v=v: And(v(s) == n(s) + 1, v(s) >= 1)))
            out.append(("%s counts up" % nm, lambda s, v=v: And(v(s) == n(s), v(s) >= 0)))
        return out
    def mods(c):
        vc = c.vc
        m = {vc.p.key(POOL, f): (lambda a: a == c[0]) for f in ("stack", "count", "resourceFree")}
        for f in ("index", "aba"): m[headkey(vc, f)] = lambda a: a == c[0] + offs(vc, POOL, "head")
        m[("f", vc.p.tu.records[vc.p.parse(HEAD).id]["name"], "exchange#rest")] = lambda a: a == c[0] + offs(vc, POOL, "head")
        return {**m, **exc_mods(vc, c[5]), MADE: True, WHERE: True, ("g", "live"): True}
    con = Contract(name, pre, post, mods, loop=loop)
    b = dict(HEAP)
    def var(vc, st, vs, e, fv):
        out = made_h(vc, st, vs, e, fv)
        s, r = out[0]
        gset(vc, s, WHERE, r, F(vc, s, "count", vc.cc[0]) + 1)
        for s, _ in out: s.path.append(trig(F(vc, s, "count", vc.cc[0]) + 1))
        return out
    b["var:resourceCreate"] = var
    return [(VC(P(), [con], builtins=b, axioms=TRIG), con)]

@unit("v_pool_free", "P08", "fiftyoneDegreesPoolFree fiftyoneDegreesPoolReset", native="pool_bounded pool_limits", trusted=["the freer only frees the resource"])
def _(u):
    name = "fiftyoneDegreesPoolFree"
    def pre(c):
        vc, st = c.vc, c.old; p = c[0]; s, n = F(vc, st, "stack", p), F(vc, st, "count", p)
        r = Int("pr"); w = gmap(vc, st, WHERE, r)
        on_call(vc, POOL, "resourceFree", free_h)
        return [("the pool", obj(vc, POOL, p)), ("its items", Implies(s != 0, And(addr(s), n >= 0, n < 2**16, region(s, Z(vc) * (n + 1)), live(vc, st, s) == 1, apart((p, size_of(vc, POOL)), (s, Z(vc) * (n + 1)))))), ("a freer", F(vc, st, "resourceFree", p) > 0),
                ("every resource made is in the pool", FA([r], Implies(gmap(vc, st, MADE, r) != 0, And(s != 0, trig(w), r > 0, gmap(vc, st, MADE, r) == 1, w >= 0, w <= n, fld(vc, st, ITEM, "resource", item(vc, st, p, w)) == r)), gmap(vc, st, MADE, r)))] + \
               [(l, Implies(s != 0, f)) for l, f in owned(vc, st, p, n)]
    def post(c):
        vc, st = c.vc, c.st; p = c[0]; s = F(vc, c.old, "stack", p)
        return [("every resource is freed", none_made(vc, st)), ("its memory is freed", Implies(s != 0, live(vc, st, s) == 0)), ("and nothing else", nothing_leaked(c, (s,))),
                ("the pool is empty", And(F(vc, st, "stack", p) == 0, F(vc, st, "count", p) == 0, head(vc, st, p, "index") == 0))]
    def loop(c, sc):
        vc = c.vc; p = c[0]; o = c.old; n = F(vc, o, "count", p); out = []
        r, i = Int("pr"), Int("pi"); w = gmap(vc, o, WHERE, r)
        res = lambda i: fld(vc, o, ITEM, "resource", item(vc, o, p, i))
        for nm, v in sc.ints():
            for l, done in (("below", lambda s, i, v=v: i < v(s)), ("after", lambda s, i, v=v: i > v(s)), ("up to", lambda s, i, v=v: i <= v(s)), ("from", lambda s, i, v=v: i >= v(s))):
                out.append(("freed %s %s" % (l, nm), lambda s, done=done: FA([r], Implies(gmap(vc, s, MADE, r) != 0, And(gmap(vc, o, MADE, r) == 1, gmap(vc, s, MADE, r) == 1, Not(done(s, w)))), gmap(vc, s, MADE, r))))
                out.append(("kept unless %s %s" % (l, nm), lambda s, done=done: FA([i], Implies(And(trig(i), i >= 0, i <= n, Not(done(s, i)), res(i) != 0), gmap(vc, s, MADE, res(i)) == 1), trig(i))))
            out.append(("%s in the items" % nm, lambda s, v=v: And(v(s) >= 0, v(s) <= n + 1)))
            out.append(("%s: about" % nm, lambda s, v=v: trig(v(s))))
        return out
    def mods(c):
        vc = c.vc
        m = {vc.p.key(POOL, f): (lambda a: a == c[0]) for f in ("stack", "count", "resourceFree")}
        for f in ("index", "aba"): m[headkey(vc, f)] = lambda a: a == c[0] + offs(vc, POOL, "head")
        return {**m, MADE: True, ("g", "live"): True}
    con = Contract(name, pre, post, mods, loop=loop)
    return [(VC(P(), [con], builtins=HEAP, axioms=TRIG), con)]
