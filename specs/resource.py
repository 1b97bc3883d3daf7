"""Resource managers under any history of whole operations, of this thread and of others between its steps: resource.c"""
from spec import *

MAN, HAN, CNT, DW = "fiftyoneDegreesResourceManager", "fiftyoneDegreesResourceHandle", "counter_t", "fiftyone_degrees_interlock_dw_type_t"
HAND, USES, MINE = ("g", "hand"), ("g", "uses"), ("g", "mine")        # is a handle, its users, those that are this thread
RES, OWNER, MYRES = ("g", "res"), ("g", "owner"), ("g", "myres")      # managed and not freed, by which handle; not yet managed
DIST, STEPS, CLAIM, RELOADS = G("disturbed"), G("steps"), G("claimed"), G("reloads")
def P():
    p = prog("resource.c")
    p.views[DW] = CNT
    return p
def cnt(vc, st, f, h): return gmap(vc, st, ("f", CNT, f), h)
def H(vc, st, f, h): return fld(vc, st, HAN, f, h)
def active(vc, st, m): return fld(vc, st, MAN, "active", m)
def actkey(vc): return vc.p.key(MAN, "active")
def handle_ok(vc, st, m, h, reach=None):
    r = H(vc, st, "resource", h)
    return And(addr(h), h % 16 == 0, (reach or region)(h, size_of(vc, HAN)), cnt(vc, st, "handle", h) == h, cnt(vc, st, "padding", h) == 0, cnt(vc, st, "inUse", h) == gmap(vc, st, USES, h),
               gmap(vc, st, MINE, h) >= 0, gmap(vc, st, MINE, h) <= gmap(vc, st, USES, h), gmap(vc, st, USES, h) < 2**31 - 1, live(vc, st, h) == 1, H(vc, st, "manager", h) == m, H(vc, st, "freeResource", h) > 0,
               gmap(vc, st, RES, r) == 1, gmap(vc, st, OWNER, r) == h)
def within(vc, st): return lambda h, n: vc.okf(st, h, IntVal(n))      # also in blocks the function has itself
def inv(vc, st, m, reach=None):
    h, r = Int("rh"), Int("rr"); a = active(vc, st, m); o = gmap(vc, st, OWNER, r)
    return [("the active handle is a handle", Or(a == 0, gmap(vc, st, HAND, a) == 1)),
            ("handles", FA([h], Implies(gmap(vc, st, HAND, h) == 1, handle_ok(vc, st, m, h, reach)), gmap(vc, st, HAND, h))),
            ("a handle that is not active has users", FA([h], Implies(And(gmap(vc, st, HAND, h) == 1, h != a), gmap(vc, st, USES, h) >= 1), gmap(vc, st, HAND, h))),
            ("only handles are held", FA([h], And(gmap(vc, st, MINE, h) >= 0, Implies(gmap(vc, st, MINE, h) > 0, gmap(vc, st, HAND, h) == 1)), gmap(vc, st, MINE, h))),
            ("resources have handles", FA([r], Implies(gmap(vc, st, RES, r) == 1, And(gmap(vc, st, HAND, o) == 1, H(vc, st, "resource", o) == r, gmap(vc, st, MYRES, r) == 0)), gmap(vc, st, RES, r)))]
SHARED = [HAND, USES, RES, OWNER, ("g", "live"), ("f", CNT, "handle"), ("f", CNT, "inUse"), ("f", CNT, "padding")]
def shared(vc): return SHARED + [vc.p.key(HAN, f) for f in ("resource", "manager", "freeResource")] + [actkey(vc)]
def others_keep(vc, o, n, m, blocks=()):
    """what the others leave alone: what is neither a handle nor becomes one; the handles' contents; what this thread owns"""
    a = Int("ra"); out = []
    same_but = lambda k, p: FA([a], Implies(p(a), Select(vc.arr(n, k), a) == Select(vc.arr(o, k), a)), Select(vc.arr(n, k), a))
    H0, H1 = (lambda a: gmap(vc, o, HAND, a) == 1), (lambda a: gmap(vc, n, HAND, a) == 1)
    for f in ("handle", "inUse", "padding"): out.append(same_but(("f", CNT, f), lambda a: And(Not(H0(a)), Not(H1(a)))))
    for f in ("resource", "manager", "freeResource"): out.append(same_but(vc.p.key(HAN, f), lambda a: Or(H0(a) == H1(a), gmap(vc, o, MINE, a) >= 1)))
    out.append(same_but(actkey(vc), lambda a: a != m))
    out.append(FA([a], Implies(And(H1(a), Not(H0(a))), And(live(vc, o, a) == 0, *[Or(a + size_of(vc, HAN) <= b, b + ln <= a) for b, ln in blocks])), gmap(vc, n, HAND, a)))
    out.append(FA([a], Or(live(vc, n, a) == live(vc, o, a), H0(a), H1(a)), live(vc, n, a)))
    out.append(FA([a], Implies(gmap(vc, o, MINE, a) >= 1, H1(a) == H0(a)), gmap(vc, o, MINE, a)))
    out.append((active(vc, n, m) == 0) == (active(vc, o, m) == 0))
    out.append(Implies(RELOADS.get(vc, o) == 0, active(vc, n, m) == active(vc, o, m)))
    return out
def rely(vc, st, m):
    o = st.copy()
    for k in shared(vc): st.mem[k] = FArr("rely"); st.written.add(k)
    st.path += others_keep(vc, o, st, m, st.blocks) + [f for l, f in inv(vc, st, m)]
    DIST.set(vc, st, 1)
TRUST = ["other users do whole operations, and only before this thread reads the active handle or exchanges a counter (P09 is about whole operations; the windows between reading the active handle and using it, and after the last decrement, are not covered)",
         "fewer than 2^31 - 1 users hold a handle", "the free method only frees the resource", "malloc fails or gives a fresh block of the size and alignment asked for", "sequential consistency of the exchanges"]
def onload(m_of):
    def h(vc, st, a, e):
        """others may act before the active handle is read"""
        m = m_of(vc.cc)
        for l, f in inv(vc, st, m, within(vc, st)): vc.oblige(st, f, "before the active handle is read: " + l, e)
        o = st.copy()
        rely(vc, st, m)
        # it may also be that nothing happened, which the above allows
        d = FInt("dist"); DIST.set(vc, st, d)
        x = Int("rx")
        st.path += [Implies(d == 0, And(DIST.get(vc, o) == 0, *[FA([x], gmap(vc, st, k, x) == gmap(vc, o, k, x), gmap(vc, st, k, x)) for k in shared(vc)]))]
    return h
def get_dw(vc, st, a): return [cnt(vc, st, f, a) for f in ("handle", "inUse", "padding")]
def set_dw(vc, st, a, v):
    for f, x in zip(("handle", "inUse", "padding"), v): gset(vc, st, ("f", CNT, f), a, x)
def take(vc, st, m, h, e):
    vc.oblige(st, h == active(vc, st, m), "the handle taken is the active one", e)
    st.path.append(gmap(vc, st, USES, h) + 1 < 2**31 - 1)    # as trusted
    gset(vc, st, USES, h, gmap(vc, st, USES, h) + 1); gset(vc, st, MINE, h, gmap(vc, st, MINE, h) + 1)
def give(vc, st, m, h, e):
    gset(vc, st, USES, h, gmap(vc, st, USES, h) - 1); gset(vc, st, MINE, h, gmap(vc, st, MINE, h) - 1)
def exchange(m_of, delta):
    """the counter of dest becomes desired if it was expected"""
    def h(vc, st, vs, e, fv):
        c = vc.cc; m = m_of(c); d, x, y = vs
        vc.oblige(st, And(vc.okf(st, d, IntVal(16)), d % 16 == 0, x % 16 == 0, y % 16 == 0), "aligned counters", e)
        out = []
        for st, before in vc.branch(st, STEPS.get(vc, st) == 0):
            if before:
                for l, f in inv(vc, st, m, within(vc, st)): vc.oblige(st, f, "between steps: " + l, e)
                vc.oblige(st, gmap(vc, st, HAND, d) == 1, "it is a handle's counter", e)
            o = st.copy()
            if before:
                if delta < 0: rely(vc, o, m); sts = [st, o]
                else: sts = [st]
            else:
                # another thread may have claimed the handle
                vc.oblige(st, And(gmap(vc, st, HAND, d) == 1, d == get_dw(vc, st, x)[0]), "the handle given back is claimed", e)
                gset(vc, o, ("f", CNT, "handle"), d, 0); CLAIM.set(vc, o, -1); DIST.set(vc, o, 1); sts = [st, o]
            for s in sts:
                cur, exp, des = get_dw(vc, s, d), get_dw(vc, s, x), get_dw(vc, s, y)
                for s2, b in vc.branch(s, And(*[p == q for p, q in zip(cur, exp)])):
                    if not b: set_dw(vc, s2, x, cur)
                    elif before:
                        vc.oblige(s2, And(des[0] == cur[0], des[1] == cur[1] + delta, des[2] == cur[2]), "the count changes by one", e)
                        set_dw(vc, s2, d, des); STEPS.set(vc, s2, 1)
                        (take if delta > 0 else give)(vc, s2, m, d, e)
                    else:
                        vc.oblige(s2, CLAIM.get(vc, s2) == 0, "claimed once", e)
                        vc.oblige(s2, And(des[0] == 0, gmap(vc, s2, USES, d) == 0, d != active(vc, s2, m)), "only a handle without users that is not active is claimed", e)
                        set_dw(vc, s2, d, des); CLAIM.set(vc, s2, d)
                    out.append((s2, IntVal(1 if b else 0)))
        return out
    return h
def free_resource(vc, st, vs, e, fv):
    r = vs[0]; h = gmap(vc, st, OWNER, r)
    vc.oblige(st, gmap(vc, st, RES, r) == 1, "a resource is freed once", e)
    vc.oblige(st, And(h == CLAIM.get(vc, st), gmap(vc, st, USES, h) == 0, fv == H(vc, st, "freeResource", h)), "only a resource that is not used is freed, with its free method", e)
    gset(vc, st, RES, r, 0)
    return [(st, IntVal(0))]
def free_handle(vc, st, vs, e, fv):
    h = vs[0]
    vc.oblige(st, And(live(vc, st, h) == 1, h == CLAIM.get(vc, st), gmap(vc, st, RES, H(vc, st, "resource", h)) == 0), "the claimed handle is freed, after its resource", e)
    gset(vc, st, HAND, h, 0); gset(vc, st, ("g", "live"), h, 0)
    return [(st, IntVal(0))]
def manager_ok(vc, m): return And(obj(vc, MAN, m))
def mine_same(vc, o, n, but=None, d=0):
    a = Int("ma"); x, y = gmap(vc, n, MINE, a), gmap(vc, o, MINE, a)
    if z3.eq(vc.arr(o, MINE), vc.arr(n, MINE)): return BoolVal(True) if but is None else (d if z3.is_expr(d) else IntVal(d)) == 0
    return FA([a], x == (If(a == but, y + d, y) if but is not None else y), x)
def calm(vc, o, n, m, but=None, act=True, new=None, newres=None):
    """nothing but one handle and its resource (and what is new) has changed"""
    a = Int("ca"); out = [active(vc, n, m) == active(vc, o, m)] if act else []
    isnew = (lambda a: a == new) if new is not None else (lambda a: BoolVal(False))
    for k in (HAND, USES, ("g", "live")):
        x, y = gmap(vc, n, k, a), gmap(vc, o, k, a)
        if not z3.eq(vc.arr(o, k), vc.arr(n, k)): out.append(FA([a], Or(x == y, isnew(a), *([a == but] if but is not None else [])), x))
    for k in [vc.p.key(HAN, f) for f in ("resource", "manager", "freeResource")]:
        x, y = gmap(vc, n, k, a), gmap(vc, o, k, a)
        if not z3.eq(vc.arr(o, k), vc.arr(n, k)): out.append(FA([a], Or(x == y, isnew(a)), x))
    x, y = gmap(vc, n, RES, a), gmap(vc, o, RES, a)
    if not z3.eq(vc.arr(o, RES), vc.arr(n, RES)): out.append(FA([a], Or(x == y, *([a == newres] if newres is not None else []), *([a == H(vc, o, "resource", but)] if but is not None else [])), x))
    return And(*out)
def mods(c, m):
    vc, o = c.vc, c.old
    mm = {k: True for k in (HAND, USES, MINE, RES, OWNER, DIST.key, STEPS.key, CLAIM.key)}
    either = lambda a: Or(gmap(vc, o, HAND, a) == 1, live(vc, o, a) == 0)
    for k in SHARED:
        if k[0] == "f": mm[k] = either
    for f in ("resource", "manager", "freeResource"): mm[vc.p.key(HAN, f)] = either
    mm[("g", "live")] = either
    mm[actkey(vc)] = lambda a: a == m
    for f in ("low", "high"): mm[("f", DW, f)] = True
    return mm
def common_pre(c, m, called=False): return [("the manager", manager_ok(c.vc, m))] + inv(c.vc, c.old, m, within(c.vc, c.old) if called else None)
def unchanged_when_calm(c, f): return Implies(DIST.get(c.vc, c.st) == 0, And(DIST.get(c.vc, c.old) == 0, f))
def reloads(c, m): return [("the active handle changes only with reloads", Implies(RELOADS.get(c.vc, c.old) == 0, active(c.vc, c.st, m) == active(c.vc, c.old, m))),
                           ("none stays none", (active(c.vc, c.st, m) == 0) == (active(c.vc, c.old, m) == 0))]
def loop_of(m_of, held=None):
    def loop(c, sc):
        vc, m = c.vc, m_of(c)
        out = [(l, lambda s, n=n: inv(vc, s, m)[n][1]) for n, (l, f) in enumerate(inv(vc, c.old, m))]
        out += [("no step yet", lambda s: And(STEPS.get(vc, s) == 0, CLAIM.get(vc, s) == 0)), ("mine", lambda s: mine_same(vc, c.old, s)),
                ("calm", lambda s: Implies(DIST.get(vc, s) == 0, And(DIST.get(vc, c.old) == 0, calm(vc, c.old, s, m)))),
                ("reloads", lambda s: Implies(RELOADS.get(vc, c.old) == 0, active(vc, s, m) == active(vc, c.old, m))),
                ("none stays none", lambda s: (active(vc, s, m) == 0) == (active(vc, c.old, m) == 0)),
                ("reachable", lambda s: And(*others_keep_private(vc, c.old, s)))]
        if held is not None:
            out.append(("held", lambda s: gmap(vc, s, HAND, held(c)) == 1))
            for f in ("resource", "manager", "freeResource"): out.append(("held " + f, lambda s, f=f: H(vc, s, f, held(c)) == H(vc, c.old, f, held(c))))
        return out
    return loop
def others_keep_private(vc, o, n):
    """new handles are where nothing was allocated"""
    a = Int("rp")
    return [FA([a], Implies(And(gmap(vc, n, HAND, a) == 1, gmap(vc, o, HAND, a) != 1), live(vc, o, a) == 0), gmap(vc, n, HAND, a))]

def dec_contract(called=False):
    name = "fiftyoneDegreesResourceHandleDecUse"
    def M(c): return H(c.vc, c.old, "manager", c[0])
    def pre(c):
        vc, st = c.vc, c.old
        if not called:
            on_call(vc, HAN, "freeResource", free_resource)
            vc.builtins["__atomic_compare_exchange"] = exchange(M, -1)
        return common_pre(c, M(c), called) + [("a handle this thread holds", And(gmap(vc, st, HAND, c[0]) == 1, gmap(vc, st, MINE, c[0]) >= 1))] + ([] if called else start(c))
    def post(c):
        vc, st, o, m, h = c.vc, c.st, c.old, M(c), c[0]
        u = gmap(vc, o, USES, h) - 1; gone = And(u == 0, h != active(vc, o, m))
        r = H(vc, o, "resource", h)
        other = BoolVal(False) if called else CLAIM.get(vc, st) == -1
        return [(l, Implies(Not(other), f)) for l, f in inv(vc, st, m, within(vc, st))] + [("this use is given back, and no other", mine_same(vc, o, st, h, -1)),] + [(l, Implies(Not(other), f)) for l, f in reloads(c, m)] + \
               [("undisturbed: nothing else changes", unchanged_when_calm(c, And(calm(vc, o, st, m, h), gmap(vc, st, USES, h) == u))),
                ("undisturbed: it is freed with its resource, or stays", unchanged_when_calm(c, And(gmap(vc, st, HAND, h) == If(gone, IntVal(0), IntVal(1)), live(vc, st, h) == If(gone, IntVal(0), IntVal(1)), gmap(vc, st, RES, r) == If(gone, IntVal(0), IntVal(1))))),
                ("new handles are where nothing was", And(*others_keep_private(vc, o, st)))]
    return Contract(name, pre, post, lambda c: mods(c, M(c)), loop=loop_of(M, lambda c: c[0]))
def start(c): return [("no step yet", And(STEPS.get(c.vc, c.old) == 0, CLAIM.get(c.vc, c.old) == 0))]
def inc_contract(called=False):
    name = "fiftyoneDegreesResourceHandleIncUse"
    def M(c): return c[0]
    def pre(c):
        vc, st = c.vc, c.old
        if not called:
            vc.builtins["__atomic_compare_exchange"] = exchange(M, 1)
            vc.onload = {actkey(vc): onload(M)}
        return common_pre(c, c[0], called) + [("there is a resource", active(vc, st, c[0]) != 0)] + ([] if called else start(c))
    def post(c):
        vc, st, o, m, h = c.vc, c.st, c.old, c[0], c.ret
        return inv(vc, st, m, within(vc, st)) + [("without reloads it is the active one", Implies(RELOADS.get(vc, o) == 0, h == active(vc, o, m))), ("a handle is taken, once", And(gmap(vc, st, HAND, h) == 1, mine_same(vc, o, st, h, 1)))] + reloads(c, m) + \
               [("undisturbed: the active one", unchanged_when_calm(c, And(h == active(vc, o, m), calm(vc, o, st, m, h), gmap(vc, st, HAND, h) == 1, gmap(vc, st, RES, H(vc, o, "resource", h)) == 1, live(vc, st, h) == 1, gmap(vc, st, USES, h) == gmap(vc, o, USES, h) + 1, H(vc, st, "resource", h) == H(vc, o, "resource", h)))),
                ("new handles are where nothing was", And(*others_keep_private(vc, o, st)))]
    return Contract(name, pre, post, lambda c: mods(c, c[0]), loop=loop_of(M))
NATIVE = "resource_bounded"
B = dict(HEAP); B["var:fiftyoneDegreesFreeAligned"] = free_handle

def vcof(cons):
    vc = VC(P(), cons, builtins=B); vc.retry = 100000
    return vc

@unit("v_resource_dec", "P09", "fiftyoneDegreesResourceHandleDecUse", native=NATIVE, trusted=TRUST, timeout=450, jobs=8)
def _(u):
    con = dec_contract()
    return [(vcof([con]), con)]

@unit("v_resource_inc", "P09", "fiftyoneDegreesResourceHandleIncUse", native=NATIVE, trusted=TRUST, timeout=450, jobs=8)
def _(u):
    con = inc_contract()
    return [(vcof([con]), con)]

PTR = ("t", "ptr")
SWAPS = G("swaps")
def new_handle(vc, st, m, h, res):
    return And(addr(h), h % 16 == 0, live(vc, st, h) == 1, cnt(vc, st, "handle", h) == h, cnt(vc, st, "inUse", h) == 0, cnt(vc, st, "padding", h) == 0, H(vc, st, "manager", h) == m, H(vc, st, "resource", h) == res)
def out_ptr(vc, p): return And(addr(p), region(p, 8))

@unit("v_resource_init", "P09", "fiftyoneDegreesResourceManagerInit setupResource fiftyoneDegreesResourceHandleGetUse", native=NATIVE, trusted=["malloc fails or gives a fresh block of the size and alignment asked for"])
def _(u):
    def pre(c): return [("the manager", obj(c.vc, MAN, c[0])), ("where the handle goes", out_ptr(c.vc, c[2])), ("apart", apart((c[0], 8), (c[2], 8))), ("a free method", And(c[3] > 0, c[1] > 0))]
    def post(c):
        vc, st, m = c.vc, c.st, c[0]; r = gmap(vc, st, PTR, c[2])
        s2 = st.copy()
        for k, d in ((HAND, {r: 1}), (USES, {}), (MINE, {}), (RES, {c[1]: 1}), (MYRES, {})):
            x = z3.K(IntSort(), IntVal(0))
            for a, v in d.items(): x = Store(x, a, IntVal(v))
            s2.mem[k] = x
        s2.mem[OWNER] = z3.K(IntSort(), r)
        whole = vc.okf(st, r, IntVal(size_of(vc, HAN)))
        okay = lambda f: Implies(r != 0, f)
        return [("the handle is the active one", active(vc, st, m) == r), ("a handle without users", Implies(r != 0, And(new_handle(vc, st, m, r, c[1]), H(vc, st, "freeResource", r) == c[3], whole, nothing_leaked(c, (r,))))),
                ("none only without memory", Implies(r == 0, And(BoolVal(st.ghost.get("malloc_failed", 0) != 0), nothing_leaked(c))))] + \
               [("a manager of one resource: " + l, okay(f)) for l, f in inv(vc, s2, m, within(vc, s2))]
    def mods_(c):
        vc = c.vc
        return {PTR: lambda a: a == c[2], actkey(vc): lambda a: a == c[0], ("g", "live"): True}
    con = Contract("fiftyoneDegreesResourceManagerInit", pre, post, mods_)
    use = Contract("fiftyoneDegreesResourceHandleGetUse", lambda c: [("a handle or none", Or(c[0] == 0, And(addr(c[0]), region(c[0], size_of(c.vc, HAN)))))],
                   lambda c: [("its users", c.ret == If(c[0] == 0, IntVal(0), cnt(c.vc, c.st, "inUse", c[0])))], lambda c: {})
    return [(VC(P(), [con], builtins=HEAP), con), (VC(P(), [use]), use)]

@unit("v_resource_free", "P09", "fiftyoneDegreesResourceManagerFree", native=NATIVE, trusted=TRUST + ["no reload or new use while a manager is freed (documented)"])
def _(u):
    def pre(c):
        vc, st = c.vc, c.old
        vc.onload = {actkey(vc): onload(lambda c: c[0])}
        return common_pre(c, c[0]) + [("no reloads", RELOADS.get(vc, st) == 0)]
    def post(c):
        vc, st, o, m = c.vc, c.st, c.old, c[0]; A = active(vc, o, m)
        kept = If(gmap(vc, o, USES, A) >= 1, IntVal(1), IntVal(0))
        return inv(vc, st, m, within(vc, st)) + [("nothing is active", active(vc, st, m) == 0), ("this thread's uses stay", mine_same(vc, o, st)),
            ("undisturbed: the resource is freed if unused, or left to its users", unchanged_when_calm(c, Implies(A != 0, And(calm(vc, o, st, m, A, act=False), gmap(vc, st, HAND, A) == kept, gmap(vc, st, RES, H(vc, o, "resource", A)) == kept, live(vc, st, A) == kept, Implies(kept == 1, gmap(vc, st, USES, A) == gmap(vc, o, USES, A)))))),
            ("nothing to free", unchanged_when_calm(c, Implies(A == 0, calm(vc, o, st, m))))]
    con = Contract("fiftyoneDegreesResourceManagerFree", pre, post, lambda c: {k: True for k in mods(c, c[0])})
    return [(vcof([con, inc_contract(True), dec_contract(True)]), con)]

@unit("v_resource_replace", "P09", "fiftyoneDegreesResourceReplace setupResource", native=NATIVE, trusted=TRUST, timeout=450, jobs=8)
def _(u):
    name = "fiftyoneDegreesResourceReplace"
    M = lambda c: c[0]
    def swap(vc, st, vs, e, fv):
        c = vc.cc; m = c[0]; d, exp, new = vs
        vc.oblige(st, d == m + offs(vc, MAN, "active"), "the active handle is exchanged", e)
        for l, f in inv(vc, st, m, within(vc, st)): vc.oblige(st, f, "between steps: " + l, e)
        o = st.copy(); rely(vc, o, m)
        out = []
        for s in (st, o):
            cur = active(vc, s, m)
            for s2, b in vc.branch(s, cur == exp):
                if b:
                    vc.oblige(s2, And(SWAPS.get(vc, s2) == 0, gmap(vc, s2, MYRES, c[1]) == 1), "replaced once", e)
                    vc.oblige(s2, And(new_handle(vc, s2, m, new, c[1]), gmap(vc, s2, HAND, new) != 1), "a new handle of the new resource", e)
                    vc.oblige(s2, And(gmap(vc, s2, HAND, exp) == 1, gmap(vc, s2, MINE, exp) >= 1), "the handle replaced is held", e)
                    setfld(vc, s2, MAN, "active", m, new)
                    for k, v in ((HAND, 1), (USES, 0)): gset(vc, s2, k, new, v)
                    gset(vc, s2, RES, c[1], 1); gset(vc, s2, OWNER, c[1], new); gset(vc, s2, MYRES, c[1], 0)
                    SWAPS.set(vc, s2, 1)
                out.append((s2, cur))
        return out
    def pre(c):
        vc, st, m = c.vc, c.old, c[0]; h = Int("rm")
        vc.onload = {actkey(vc): onload(M)}
        vc.builtins["__sync_val_compare_and_swap_8"] = vc.builtins["__sync_val_compare_and_swap"] = swap
        return common_pre(c, m) + [("there is a resource", active(vc, st, m) != 0), ("a resource to be managed", And(c[1] > 0, gmap(vc, st, MYRES, c[1]) == 1)), ("where the handle goes", And(out_ptr(vc, c[2]), apart((m, 8), (c[2], 8)))), ("no swap yet", SWAPS.get(vc, st) == 0)]
    def post(c):
        vc, st, o, m = c.vc, c.st, c.old, c[0]; r = gmap(vc, st, PTR, c[2]); A = active(vc, o, m)
        kept = If(gmap(vc, o, USES, A) >= 1, IntVal(1), IntVal(0))
        return inv(vc, st, m, within(vc, st)) + [("this thread's uses stay", mine_same(vc, o, st)),
            ("without memory nothing happens", Implies(r == 0, And(BoolVal(st.ghost.get("malloc_failed", 0) != 0), SWAPS.get(vc, st) == 0, gmap(vc, st, MYRES, c[1]) == 1, unchanged_when_calm(c, calm(vc, o, st, m))))),
            ("or the resource is replaced, once", Implies(r != 0, And(SWAPS.get(vc, st) == 1, gmap(vc, st, MYRES, c[1]) == 0))),
            ("undisturbed: the new one is active", Implies(r != 0, unchanged_when_calm(c, And(active(vc, st, m) == r, gmap(vc, st, HAND, r) == 1, H(vc, st, "resource", r) == c[1], H(vc, st, "freeResource", r) == H(vc, o, "freeResource", A), gmap(vc, st, USES, r) == 0, gmap(vc, st, RES, c[1]) == 1)))),
            ("undisturbed: the old one is freed if unused, or left to its users", Implies(r != 0, unchanged_when_calm(c, And(gmap(vc, st, HAND, A) == kept, gmap(vc, st, RES, H(vc, o, "resource", A)) == kept, live(vc, st, A) == kept, Implies(kept == 1, gmap(vc, st, USES, A) == gmap(vc, o, USES, A)))))),
            ("undisturbed: nothing else changes", Implies(r != 0, unchanged_when_calm(c, calm(vc, o, st, m, A, act=False, new=r, newres=c[1]))))]
    def mods_(c):
        m = {k: True for k in mods(c, c[0])}     # what others may have changed; what stays is in the postconditions
        return {**m, actkey(c.vc): lambda a: a == c[0], PTR: lambda a: a == c[2], MYRES: lambda a: a == c[1], SWAPS.key: True}
    def loop(c, sc):
        vc, m, o = c.vc, c[0], c.old; r = lambda s: gmap(vc, s, PTR, c[2])
        out = [(l, lambda s, n=n: inv(vc, s, m, within(vc, s))[n][1]) for n, (l, f) in enumerate(inv(vc, o, m))]
        out += [("no swap yet", lambda s: And(SWAPS.get(vc, s) == 0, gmap(vc, s, MYRES, c[1]) == 1)), ("there is a resource", lambda s: active(vc, s, m) != 0),
                ("the new handle", lambda s: And(new_handle(vc, s, m, r(s), c[1]), H(vc, s, "freeResource", r(s)) > 0, gmap(vc, s, HAND, r(s)) != 1)),
                ("its free method", lambda s: Implies(DIST.get(vc, s) == 0, H(vc, s, "freeResource", r(s)) == H(vc, o, "freeResource", active(vc, o, m)))),
                ("is fresh", lambda s: And(gmap(vc, o, HAND, r(s)) != 1, gmap(vc, s, MINE, r(s)) == 0))]
        for nm, v in sc.ptrs(vc.p.tu.records[vc.p.parse(HAN).id]["name"]):
            out.append(("mine but %s" % nm, lambda s, v=v: mine_same(vc, o, s, v(s), If(v(s) == 0, IntVal(0), IntVal(1)))))
            out.append(("%s held" % nm, lambda s, v=v: Or(v(s) == 0, And(gmap(vc, s, HAND, v(s)) == 1, gmap(vc, s, MINE, v(s)) >= 1))))
            out.append(("calm but %s" % nm, lambda s, v=v: Implies(DIST.get(vc, s) == 0, And(DIST.get(vc, o) == 0, v(s) == 0, calm(vc, o, s, m, None, new=r(s), newres=c[1])))))
        return out
    con = Contract(name, pre, post, mods_, loop=loop)
    return [(vcof([con, inc_contract(True), dec_contract(True)]), con)]
