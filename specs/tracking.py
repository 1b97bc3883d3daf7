"""The tracking allocator and aligned allocation, for any history, size and alignment: memory.c"""
from spec import *

NODE = "fiftyoneDegreesTreeNode"
NODEOF, ROOTOF = ("g", "nodeof"), ("g", "rootof")       # the tracker's tree, by its contract (P07)
def P(): return prog("memory.c")
ST = Int("glob_state")
def S(vc, st, f): return fld(vc, st, "allocationTree", f, ST)
def SZ(vc, st, p): return fld(vc, st, "allocation", "size", gmap(vc, st, NODEOF, p))

def fail_or_block(vc, st, n, align=None):
    bad = st.copy(); bad.ghost["malloc_failed"] = 1
    a = vc.fresh_block(st, n, "heap")
    m = vc.arr(st, ("g", "live")); st.path.append(Select(m, a) == 0); st.mem[("g", "live")] = Store(m, a, IntVal(1)); st.written.add(("g", "live"))
    if align is not None: st.path.append(a % align == 0)
    return [(bad, IntVal(0)), (st, a)]
def h_malloc(vc, st, vs, e, fv): return fail_or_block(vc, st, vs[0])
def h_aligned(vc, st, vs, e, fv):
    vc.oblige(st, And(vs[0] > 0, vs[1] % vs[0] == 0), "aligned_alloc's size is a multiple of the alignment", e)
    return fail_or_block(vc, st, vs[1], vs[0])
def h_record(vc, st, vs, e, fv): return fail_or_block(vc, st, vs[0])[1:]
def h_init(vc, st, vs, e, fv):
    setfld(vc, st, NODE, "root", vs[0], vs[1]); setfld(vc, st, NODE, "key", vs[0], 0)
    return [(st, IntVal(0))]
def h_insert(vc, st, vs, e, fv):
    k = fld(vc, st, NODE, "key", vs[0])
    gset(vc, st, NODEOF, k, vs[0]); gset(vc, st, ROOTOF, k, fld(vc, st, NODE, "root", vs[0]))
    return [(st, IntVal(0))]
def h_find(vc, st, vs, e, fv):
    n = gmap(vc, st, NODEOF, vs[1])
    st.path.append(And(n >= 0, n < 2**62))
    return [(st, If(gmap(vc, st, ROOTOF, vs[1]) == vs[0], n, 0))]
def h_delete(vc, st, vs, e, fv):
    k = fld(vc, st, NODE, "key", vs[0])
    vc.oblige(st, gmap(vc, st, NODEOF, k) == vs[0], "only a record in the tree is taken out", e)
    gset(vc, st, NODEOF, k, 0)
    return [(st, IntVal(0))]
TREE = {"fiftyoneDegreesTreeNodeInit": h_init, "fiftyoneDegreesTreeInsert": h_insert, "fiftyoneDegreesTreeFind": h_find, "fiftyoneDegreesTreeDelete": h_delete}
def h_free(vc, st, vs, e, fv):
    vc.oblige(st, gmap(vc, st, NODEOF, vs[0]) == 0, "memory is not tracked any more when it is given back: another thread may be given it", e)
    return vc.builtins["free"](vc, st, vs, e, fv)
LOCKS = {n: (lambda vc, st, vs, e, fv: [(st, IntVal(0))]) for n in ("pthread_mutex_lock", "pthread_mutex_unlock", "fiftyoneDegreesMutexLock", "fiftyoneDegreesMutexUnlock")}
def builtins(aligned):
    b = dict(HEAP); b.update(TREE); b.update(LOCKS)
    b["aligned_alloc"] = h_aligned
    b["malloc"] = h_record
    return b
TRUST = ["the tracker's tree by its contract (P07): find gives the record inserted under the key in that root and not deleted since", "malloc and aligned_alloc fail or give a fresh block of the size asked for, aligned as asked for",
         "the tracker can always allocate its own record (memory.c asserts it)", "lock and unlock give mutual exclusion"]

def shard_ok(vc, st):
    """every record is in the tree where its pointer is looked for, and remembers its pointer"""
    k = Int("sk")
    n = gmap(vc, st, NODEOF, k); r = Select(vc.arr(st, ROOTOF), k); div = Select(vc.arr(st, ("t", 4)), Int("glob_shardDivider"))
    rs = size_of(vc, "fiftyoneDegreesTreeRoot"); roots = ST + offs(vc, "allocationTree", "roots")
    count = (offs(vc, "allocationTree", "locks") - offs(vc, "allocationTree", "roots")) // rs
    return [("the divider", And(div > 0, div < 2**31)),
            ("records are where they are looked for", FA([k], Implies(And(k >= 0, n != 0), And(r == roots + rs * ((k / div) % count), live(vc, st, n) == 1, fld(vc, st, NODE, "key", n) == k)), n))]
def alloc_unit(name, argn, aligned):
    def pre(c):
        vc, st = c.vc, c.old; k = Int("ak")
        return [p for p in shard_ok(vc, st)] + [("initialised", Select(vc.arr(st, ("t", 1)), Int("glob_initialised")) == 1),
            ("only live memory is tracked", FA([k], Implies(And(k > 0, gmap(vc, st, NODEOF, k) != 0), And(live(vc, st, k) == 1, gmap(vc, st, NODEOF, k) != k)), gmap(vc, st, NODEOF, k))),
            ("sane sizes", And(c[argn] < 2**62, S(vc, st, "allocated") >= 0, S(vc, st, "allocated") < 2**62, S(vc, st, "max") >= S(vc, st, "allocated"), S(vc, st, "max") < 2**63))] + \
            ([("a power of two", And(c[0] > 0, c[0] <= 2**20))] if aligned else [])
    def post(c):
        vc, st, r = c.vc, c.st, c.ret; n = c[argn]
        total, mx = S(vc, st, "allocated"), S(vc, st, "max"); ot, om = S(vc, c.old, "allocated"), S(vc, c.old, "max")
        k = Int("ak")
        out = [("memory of the size asked for", Implies(r != 0, And(vc.okf(st, r, n), live(vc, st, r) == 1))),
               ("counted as what it is", Implies(r != 0, And(gmap(vc, st, NODEOF, r) != 0, total == ot + SZ(vc, st, r), SZ(vc, st, r) >= n))),
               ("nothing else changes its count", FA([k], Implies(k != r, gmap(vc, st, NODEOF, k) == gmap(vc, c.old, NODEOF, k)), gmap(vc, st, NODEOF, k))),
               ("a failed allocation counts nothing", Implies(r == 0, And(total == ot, mx == om))),
               ("the maximum is the largest total", mx == If(total > om, total, om)),
               ("only live memory is tracked", FA([k], Implies(And(k > 0, gmap(vc, st, NODEOF, k) != 0), live(vc, st, k) == 1), gmap(vc, st, NODEOF, k)))]
        if aligned: out += [("aligned as asked for", Implies(r != 0, r % c[0] == 0)), ("counted to the alignment", Implies(r != 0, And(SZ(vc, st, r) < n + c[0])))]
        else: out += [("exactly its size is counted", Implies(r != 0, SZ(vc, st, r) == n))]
        return out + shard_ok(vc, st)
    return Contract(name, pre, post, lambda c: state_mods(c))
def state_mods(c):
    vc = c.vc
    m = {vc.p.key("allocationTree", f): (lambda a: a == ST) for f in ("allocated", "max")}
    for k in (NODEOF, ROOTOF, ("g", "live")): m[k] = True
    # a new record's own fields are in its fresh block; a freed one's are gone
    return m
def free_unit(name):
    def pre(c):
        vc, st = c.vc, c.old; k = Int("ak"); n = gmap(vc, st, NODEOF, c[0])
        return shard_ok(vc, st)[:2] + [("NULL or allocated", Implies(c[0] != 0, live(vc, st, c[0]) == 1)), ("a pointer", c[0] < 2**62),
            ("its record is another block", Implies(n != 0, And(n != c[0], obj(vc, "allocation", n)))), ("NULL is not tracked", gmap(vc, st, NODEOF, IntVal(0)) == 0),
            ("the total covers it", And(S(vc, st, "allocated") >= 0, S(vc, st, "allocated") < 2**64, Implies(And(c[0] != 0, n != 0), And(SZ(vc, st, c[0]) >= 0, SZ(vc, st, c[0]) <= S(vc, st, "allocated")))))]
    def post(c):
        vc, st = c.vc, c.st; n = gmap(vc, c.old, NODEOF, c[0]); k = Int("ak")
        return [("it is freed", Implies(c[0] != 0, live(vc, st, c[0]) == 0)),
                ("what it counted is taken off", S(vc, st, "allocated") == S(vc, c.old, "allocated") - If(And(c[0] != 0, n != 0), SZ(vc, c.old, c[0]), 0)),
                ("the maximum stays", S(vc, st, "max") == S(vc, c.old, "max")),
                ("it is not tracked any more", Implies(c[0] != 0, gmap(vc, st, NODEOF, c[0]) == 0)),
                ("nothing else changes its count", FA([k], Implies(k != c[0], gmap(vc, st, NODEOF, k) == gmap(vc, c.old, NODEOF, k)), gmap(vc, st, NODEOF, k))),
                ("its record is freed, and nothing else", nothing_leaked(c, (c[0], n))),
                ("its record is freed", Implies(And(c[0] != 0, n != 0), live(vc, st, n) == 0))]
    return Contract(name, pre, post, state_mods)

@unit("v_tracking_malloc", "P25", "fiftyoneDegreesMemoryTrackingMalloc fiftyoneDegreesMemoryTrackingMallocAligned trackAllocation alignedSize getShardFromPointer", native="memory_tracking_bounded", trusted=TRUST)
def _(u):
    out = []
    for name, argn, al in (("fiftyoneDegreesMemoryTrackingMalloc", 0, False), ("fiftyoneDegreesMemoryTrackingMallocAligned", 1, True)):
        con = alloc_unit(name, argn, al)
        b = builtins(al); b["fiftyoneDegreesMemoryStandardMalloc"] = h_malloc
        out.append((VC(P(), [con], builtins=b), con))
    return out

@unit("v_tracking_free", "P25", "fiftyoneDegreesMemoryTrackingFree fiftyoneDegreesMemoryTrackingFreeAligned untrackAllocation", native="memory_tracking_bounded", trusted=TRUST)
def _(u):
    b = builtins(False); b["fiftyoneDegreesMemoryStandardFree"] = b["fiftyoneDegreesMemoryStandardFreeAligned"] = h_free
    return [(VC(P(), [con], builtins=b), con) for con in map(free_unit, ("fiftyoneDegreesMemoryTrackingFree", "fiftyoneDegreesMemoryTrackingFreeAligned"))]

@unit("v_memory_aligned", "P25", "fiftyoneDegreesMemoryStandardMallocAligned fiftyoneDegreesMemoryStandardMalloc", native="memory_tracking_bounded", trusted=TRUST[1:2])
def _(u):
    def pre(c): return [("an alignment", And(c[0] > 0))]
    def post(c): return [("memory of the size asked for, aligned as asked for", Implies(c.ret != 0, And(c.vc.okf(c.st, c.ret, c[1]), c.ret % c[0] == 0))),
                         ("or none, for want of memory", Implies(c.ret == 0, Or(c.st.ghost.get("malloc_failed", 0) != 0, c[1] + c[0] > 2**64)))]
    con = Contract("fiftyoneDegreesMemoryStandardMallocAligned", pre, post, lambda c: {("g", "live"): True})
    def post2(c): return [("memory of the size asked for", Implies(c.ret != 0, c.vc.okf(c.st, c.ret, c[0])))]
    con2 = Contract("fiftyoneDegreesMemoryStandardMalloc", None, post2, lambda c: {("g", "live"): True})
    b = builtins(True); b["malloc"] = h_malloc
    return [(VC(P(), [con], builtins=b), con), (VC(P(), [con2], builtins=b), con2)]
