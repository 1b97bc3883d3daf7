"""Collections over a file: reading one record, for files, records and offsets of any size: collection.c, data.c"""
from spec import *

COL, FIL, ITEM, DATA, HANDLE, EXC, HD = ["fiftyoneDegrees" + x for x in ("Collection", "CollectionFile", "CollectionItem", "Data", "FileHandle", "Exception", "CollectionHeader")]
content = Function("content", A, A)            # the bytes of the data file
content32 = Function("content32", A, A)        # and the four byte integers in it
fsize = Int("fsize")
POS, HELD = ("g", "pos"), ("g", "held")
failed = G("failed")                           # whether a call of the library, allocator or pool failed
SMALL = 2**31
def P(): return prog("collection.c", "data.c", "memory.c")
def gmap(vc, st, key, a): return Select(vc.arr(st, key), a)
def gset(vc, st, key, a, v): st.mem[key] = Store(vc.arr(st, key), a, v if z3.is_expr(v) else IntVal(v)); st.written.add(key)

def h_fseek(vc, st, vs, e, fv):
    f, off, wh = vs
    bad = st.copy(); failed.set(vc, bad, 1)
    w = z3.simplify(wh).as_long()
    if w == 2: raise Unsupported("fseek from the end")
    to = off if w == 0 else gmap(vc, st, POS, f) + off
    rb = FInt("seek"); bad.path.append(And(rb != 0, rb >= -2**31, rb < 2**31)); gset(vc, bad, POS, f, FInt("pos"))
    neg = st.copy(); neg.path.append(to < 0); failed.set(vc, neg, 1)
    st.path.append(to >= 0)
    gset(vc, st, POS, f, to)
    return [(bad, rb), (neg, IntVal(-1)), (st, IntVal(0))]
def h_ftell(vc, st, vs, e, fv):
    bad = st.copy(); failed.set(vc, bad, 1)
    return [(bad, IntVal(-1)), (st, gmap(vc, st, POS, vs[0]))]
def h_fread(vc, st, vs, e, fv):
    """all of it, or not"""
    p, size, n, f = vs
    total = z3.simplify(size * n)
    vc.oblige(st, Or(total == 0, vc.okf(st, p, total)), "fread writes inside the buffer", e)
    pos = gmap(vc, st, POS, f)
    bad = st.copy(); failed.set(vc, bad, 1)
    a = Int(fresh("a"))
    for s in (bad, st):
        o = vc.arr(s, B); nw = FArr("read")
        s.path.append(ForAll([a], Implies(Or(a < p, a >= p + total), Select(nw, a) == Select(o, a)), patterns=[Select(nw, a)]))
        if s is st: s.path.append(ForAll([a], Implies(And(p <= a, a < p + total), Select(nw, a) == content(pos + (a - p))), patterns=[Select(nw, a)]))
        s.mem[B] = nw; s.written.add(B)
        if z3.is_int_value(total) and total.as_long() == 4:
            v = FInt("word"); s.path.append(And(v >= 0, v < 2**32))
            if s is st: s.path.append(v == content32(pos))
            s.mem[("t", 4)] = Store(vc.arr(s, ("t", 4)), p, v); s.written.add(("t", 4))
    rb = FInt("n"); bad.path.append(And(rb >= 0, rb < n)); gset(vc, bad, POS, f, FInt("pos"))
    st.path.append(pos + total <= fsize)
    gset(vc, st, POS, f, pos + total)
    return [(bad, rb), (st, n)]
def h_get(vc, st, vs, e, fv):
    """a handle to the data file that nobody else holds, or an exception"""
    bad = st.copy(); failed.set(vc, bad, 1)
    v = FInt("status"); bad.path.append(v != status_not_set(vc)); set_status(vc, bad, vs[1], v)
    h = FInt("handle"); st.path.append(And(obj(vc, HANDLE, h), gmap(vc, st, HELD, h) == 0)); gset(vc, st, HELD, h, 1)
    return [(bad, IntVal(0)), (st, h)]
def h_release(vc, st, vs, e, fv):
    vc.oblige(st, gmap(vc, st, HELD, vs[0]) == 1, "only a handle that is held is given back", e)
    gset(vc, st, HELD, vs[0], 0)
    return [(st, IntVal(0))]
FS = dict(HEAP); FS.update({"fseek": h_fseek, "ftell": h_ftell, "fread": h_fread, "fiftyoneDegreesFileHandleGet": h_get, "fiftyoneDegreesFileHandleRelease": h_release})
TRUST = ["fread delivers exactly the file's bytes at the position and moves past them, or fails; fseek moves or fails; ftell is the position or fails",
         "FileHandleGet gives a handle nobody else holds, or raises; FileHandleRelease takes it back (P08)",
         "malloc fails or gives a fresh block of the size asked for; free takes NULL or an allocated block, once"]

def same(vc, a, b, key):
    x = Int("sm"); n, o = vc.arr(a, key), vc.arr(b, key)
    return BoolVal(True) if z3.eq(n, o) else ForAll([x], Select(n, x) == Select(o, x), patterns=[Select(n, x)])
def apart(*objs): return And(*[Or(a + x <= b, b + y <= a) for i, (a, x) in enumerate(objs) for b, y in objs[:i]])
def buffer_ok(vc, st, d):
    """a data buffer owns what it says, and nothing without"""
    p, n = fld(vc, st, DATA, "ptr", d), fld(vc, st, DATA, "allocated", d)
    return Implies(n > 0, And(addr(p), live(vc, st, p) == 1))
def file_pre(c, f, d, exc, extra=()):
    vc, st = c.vc, c.old
    col = fld(vc, st, FIL, "collection", f)
    p, n = fld(vc, st, DATA, "ptr", d), fld(vc, st, DATA, "allocated", d)
    objs = [(f, size_of(vc, FIL)), (col, size_of(vc, COL)), (d, size_of(vc, DATA))] + list(extra)
    x = Int("heapx")
    return [("the collection", And(obj(vc, FIL, f), obj(vc, COL, col))), ("the data", obj(vc, DATA, d)),
            ("the exception", And(exc >= 0, Implies(exc != 0, obj(vc, EXC, exc)))), ("no exception yet", okay(vc, st, exc)),
            ("its buffer", And(buffer_ok(vc, st, d), Implies(n > 0, region(p, n)))),
            ("apart", And(apart(*objs), Implies(n > 0, apart(*objs, (p, n))), Implies(exc != 0, apart(*objs, (exc, size_of(vc, EXC)))))),
            ("the place in the file", And(fld(vc, st, FIL, "offset", f) >= 0, fld(vc, st, FIL, "offset", f) < 2**62)),
            ("nothing has failed", failed.get(vc, st) == 0)]
def data_mods(c, d, exc):
    vc = c.vc
    m = exc_mods(vc, exc)
    for f in ("ptr", "allocated", "used"): m[vc.p.key(DATA, f)] = lambda a: a == d
    p, n = fld(vc, c.old, DATA, "ptr", d), fld(vc, c.old, DATA, "allocated", d)
    m[B] = lambda a: And(n > 0, p <= a, a < p + n)
    for k in (POS, HELD, ("g", "live"), failed.key): m[k] = True
    return m
def read_post(c, f, d, exc, there, where, used, status_):
    vc, st, r = c.vc, c.st, c.ret
    k = Int("k")
    F = lambda x: fld(vc, st, DATA, x, d)
    old = fld(vc, c.old, DATA, "ptr", d)
    base = fld(vc, c.old, FIL, "offset", f)
    return [("no data from outside the collection", Implies(r != 0, there)),
            ("the bytes of the record in the file", Implies(r != 0, ForAll([k], Implies(And(r <= k, k < r + F("used")), Select(vc.arr(st, B), k) == content(base + where + (k - r))), patterns=[Select(vc.arr(st, B), k)]))),
            ("the whole record", Implies(r != 0, And(F("used") == used, F("allocated") >= used))),
            ("the record is inside the file", Implies(r != 0, base + where + used <= fsize)),
            ("the data is what is returned", Implies(r != 0, And(F("ptr") == r, live(vc, st, r) == 1))),
            ("no data with an exception", Implies(r != 0, okay(vc, st, exc))),
            ("no data without an exception", Implies(And(r == 0, exc != 0), Not(okay(vc, st, exc)))),
            ("a failing call is no data", Implies(failed.get(vc, st) == 1, r == 0)),
            ("out of range is reported", Implies(And(Not(there), exc != 0), status(vc, st, exc) == status_)),
            ("nothing used when there is no data", Implies(r == 0, F("used") == 0)),
            ("the buffer owns what it says", buffer_ok(vc, st, d)),
            ("nothing else is owned", nothing_leaked(c, (old, If(F("allocated") > 0, F("ptr"), old)))),
            ("what was owned is the buffer's or freed", Implies(And(fld(vc, c.old, DATA, "allocated", d) > 0, Or(F("allocated") == 0, F("ptr") != old)), live(vc, st, old) == 0)),
            ("every file handle is given back", same(vc, st, c.old, HELD))]
def E_(vc, s): return enum(vc, "FIFTYONE_DEGREES_STATUS_" + s)

def position():
    def pre(c):
        vc, st = c.vc, c.old
        f, exc = c[0], c[2]; col = fld(vc, st, FIL, "collection", f)
        return [("the collection", And(obj(vc, FIL, f), obj(vc, COL, col))), ("the exception", And(exc >= 0, Implies(exc != 0, obj(vc, EXC, exc)))),
                ("no exception yet", okay(vc, st, exc)), ("the place in the file", And(fld(vc, st, FIL, "offset", f) >= 0, fld(vc, st, FIL, "offset", f) < 2**62))]
    def post(c):
        vc, st, r = c.vc, c.st, c.ret
        there = c[1] < fld(vc, c.old, COL, "size", fld(vc, c.old, FIL, "collection", c[0]))
        x = Int("px")
        return [("only inside the collection", Implies(r != 0, there)),
                ("at the item", Implies(r != 0, And(addr(r), obj(vc, HANDLE, r), gmap(vc, st, POS, fld(vc, st, HANDLE, "file", r)) == fld(vc, c.old, FIL, "offset", c[0]) + c[1]))),
                ("the handle is the caller's", Implies(r != 0, And(gmap(vc, c.old, HELD, r) == 0, gmap(vc, st, HELD, r) == 1))),
                ("no other is held", ForAll([x], Or(gmap(vc, st, HELD, x) == gmap(vc, c.old, HELD, x), And(r != 0, x == r)), patterns=[gmap(vc, st, HELD, x)])),
                ("no handle with an exception", Implies(r != 0, okay(vc, st, c[2]))),
                ("no handle without an exception", Implies(And(r == 0, c[2] != 0), Not(okay(vc, st, c[2])))),
                ("out of range is reported", Implies(And(Not(there), c[2] != 0), status(vc, st, c[2]) == E_(vc, "COLLECTION_OFFSET_OUT_OF_RANGE"))),
                ("a failing call is no handle", Implies(failed.get(vc, st) != failed.get(vc, c.old), And(failed.get(vc, st) == 1, r == 0)))]
    def mods(c): return {**exc_mods(c.vc, c[2]), HELD: True, POS: True, failed.key: True}
    return Contract("fiftyoneDegreesCollectionReadFilePosition", pre, post, mods)

@unit("v_file_position", "P04", "fiftyoneDegreesCollectionReadFilePosition", native="file_collection_bounded", trusted=TRUST)
def _(u):
    con = position()
    return [(VC(P(), [con], builtins=FS), con)]

@unit("v_file_fixed", "P04", "fiftyoneDegreesCollectionReadFileFixed fiftyoneDegreesDataMalloc", native="file_collection_bounded file_collection_faults", trusted=TRUST)
def _(u):
    def parts(c):
        vc, st = c.vc, c.old
        col = fld(vc, st, FIL, "collection", c[0])
        return [fld(vc, st, COL, f, col) for f in ("elementSize", "count", "size")]
    def pre(c):
        w, n, size = parts(c)
        return file_pre(c, c[0], c[2], c[3]) + [("fixed width", And(w > 0, n * w <= size, size < 2**32)),
            c.vc.lemma("an item before the last starts a width before the end", Implies(And(0 <= c[1], c[1] < n, w > 0, n * w <= size, size < 2**32), And(c[1] * w >= 0, c[1] * w + w <= size, c[1] * w < 2**32)))]
    def post(c):
        w, n, size = parts(c)
        return read_post(c, c[0], c[2], c[3], c[1] < n, c[1] * w, w, E_(c.vc, "COLLECTION_INDEX_OUT_OF_RANGE"))
    con = Contract("fiftyoneDegreesCollectionReadFileFixed", pre, post, lambda c: data_mods(c, c[2], c[3]))
    return [(VC(P(), [con, position()], builtins=FS), con)]

fsz = G("finalsize")
@unit("v_file_variable", "P04", "fiftyoneDegreesCollectionReadFileVariable readFileVariable fiftyoneDegreesDataMalloc", native="file_collection_bounded file_collection_faults",
      trusted=TRUST + ["the method that gives the final size of a record gives any size, and changes nothing"])
def _(u):
    def h_size(vc, st, vs, e, fv):
        r = FInt("size"); st.path.append(And(r >= 0, r < 2**32)); fsz.set(vc, st, r)
        return [(st, r)]
    def pre(c):
        return file_pre(c, c[0], c[1], c[6], [(c[3], c[4])]) + [("the place for the start of a record", And(addr(c[3]), c[4] > 0, c[4] < 2**20, region(c[3], c[4])))]
    def post(c):
        vc, st = c.vc, c.st
        size = fld(vc, c.old, COL, "size", fld(vc, c.old, FIL, "collection", c[0]))
        return read_post(c, c[0], c[1], c[6], c[2] < size, c[2], fsz.get(vc, st), E_(vc, "COLLECTION_OFFSET_OUT_OF_RANGE")) + \
            [("a record is not less than its start", Implies(c.ret != 0, fsz.get(vc, st) >= c[4]))]
    def mods(c):
        m = data_mods(c, c[1], c[6]); b = m[B]
        m[B] = lambda a: Or(b(a), And(c[3] <= a, a < c[3] + c[4])); m[fsz.key] = True
        if True: m[("t", 4)] = lambda a: a == c[3]
        return m
    con = Contract("fiftyoneDegreesCollectionReadFileVariable", pre, post, mods)
    return [(VC(P(), [con], builtins={**FS, "var:*": h_size}), con)]

@unit("v_file_header", "P04", "fiftyoneDegreesCollectionHeaderFromFile", native="file_collection_bounded file_collection_faults", trusted=TRUST)
def _(u):
    def pre(c): return [("a file", And(addr(c[0]), gmap(c.vc, c.old, POS, c[0]) >= 0)), ("nothing has failed", failed.get(c.vc, c.old) == 0)]
    def post(c):
        vc, st = c.vc, c.st
        h = [fld(vc, st, HD, f, c.ret) for f in ("startPosition", "length", "count")]
        pos = gmap(vc, c.old, POS, c[0]); v = content32(pos); ok = failed.get(vc, st) == 0
        return [("an unreadable header is empty", Or(ok, gmap(vc, st, POS, c[0]) == pos + 4, And(h[0] == 0, h[1] == 0, h[2] == 0))),
                ("the collection starts after its header", Implies(And(ok, pos + 4 < 2**32), And(h[0] == pos + 4, gmap(vc, st, POS, c[0]) == pos + 4))),
                ("a count as announced", Implies(And(ok, c[2] != 0), And(h[2] == v, Implies(v * c[1] < 2**32, h[1] == v * c[1])))),
                ("a size as announced", Implies(And(ok, c[2] == 0), And(h[1] == v, h[2] == If(c[1] > 0, v / c[1], 0))))]
    con = Contract("fiftyoneDegreesCollectionHeaderFromFile", pre, post, lambda c: {POS: lambda a: a == c[0], failed.key: True, B: lambda a: BoolVal(False)})
    return [(VC(P(), [con], builtins=FS), con)]

# ------------------------------------------------ the file collection's methods
def fn_units(*names):
    return [n for n in names if P().body(n) is not None]

def h_read(c):
    """a record's read method: its data, which the caller then owns, or an exception"""
    def f(vc, st, vs, e, fv):
        d = vs[2]
        vc.oblige(st, And(vs[0] == fld(vc, c.old, COL, "state", c[0]), vs[1] == c[1], vs[2] == c[2] + offs(vc, ITEM, "data"), vs[3] == c[3]), "the record asked for is read into the item", e)
        bad = st.copy(); failed.set(vc, bad, 1)
        v = FInt("status"); bad.path.append(v != status_not_set(vc)); set_status(vc, bad, vs[3], v)
        p = FInt("buf"); st.path.append(And(addr(p), live(vc, st, p) == 0))
        gset(vc, st, ("g", "live"), p, 1)
        setfld(vc, st, DATA, "ptr", d, p)
        for x in ("allocated", "used"):
            n = FInt(x); st.path.append(And(n > 0, n < 2**32)); setfld(vc, st, DATA, x, d, n)
        setfld(vc, bad, DATA, "used", d, 0)
        return [(bad, IntVal(0)), (st, p)]
    return f
def item_pre(c):
    vc, st = c.vc, c.old
    s = fld(vc, st, COL, "state", c[0])
    return [("the item", obj(vc, ITEM, c[2])), ("the collection", And(obj(vc, COL, c[0]), obj(vc, FIL, s))), ("the exception", And(c[3] >= 0, Implies(c[3] != 0, obj(vc, EXC, c[3])))),
            ("apart", And(apart((c[0], size_of(vc, COL)), (s, size_of(vc, FIL)), (c[2], size_of(vc, ITEM))), Implies(c[3] != 0, apart((c[2], size_of(vc, ITEM)), (c[3], size_of(vc, EXC)))))),
            ("no exception yet", okay(vc, st, c[3])), ("nothing has failed", failed.get(vc, st) == 0)]
def item_mods(c):
    vc = c.vc; d = c[2] + offs(vc, ITEM, "data")
    m = exc_mods(vc, c[3])
    for f in ("ptr", "allocated", "used"): m[vc.p.key(DATA, f)] = lambda a: a == d
    for f in ("collection", "handle"): m[vc.p.key(ITEM, f)] = lambda a: a == c[2]
    for k in (("g", "live"), failed.key, HELD): m[k] = True
    return m

@unit("v_file_get", "P04", "getFile", native="file_collection_bounded", trusted=["the record's read method by its contract (proved for the two of collection.c): a buffer the caller then owns, or an exception"])
def _(u):
    def pre(c):
        on_call(c.vc, "fiftyoneDegreesCollectionFile", "read", h_read(c))
        return item_pre(c)
    def post(c):
        vc, st, r = c.vc, c.st, c.ret
        I = lambda f: fld(vc, st, ITEM, f, c[2]); d = c[2] + offs(vc, ITEM, "data")
        return [("the item is the record", Implies(r != 0, And(r == fld(vc, st, DATA, "ptr", d), I("handle") == r, I("collection") == c[0], live(vc, st, r) == 1))),
                ("a failed read is no item", (r == 0) == (failed.get(vc, st) == 1)),
                ("there is nothing to release then", Implies(r == 0, And(I("handle") == 0, nothing_leaked(c))))]
    con = Contract("getFile", pre, post, item_mods)
    return [(VC(P(), [con], builtins=FS), con)] if fn_units("getFile") else []

@unit("v_file_release", "P04", "releaseFile releasePartial freeFileCollection freeCollection", native="file_collection_bounded",
      trusted=["free takes NULL or an allocated block, once"])
def _(u):
    out = []
    if fn_units("releaseFile"):
        def pre(c):
            vc, st = c.vc, c.old; h = fld(vc, st, ITEM, "handle", c[0])
            return [("the item", obj(vc, ITEM, c[0])), ("its buffer is allocated", Implies(h != 0, live(vc, st, h) == 1))]
        def post(c):
            vc, st = c.vc, c.st; h = fld(vc, c.old, ITEM, "handle", c[0]); d = c[0] + offs(vc, ITEM, "data")
            return [("the buffer is freed", Implies(h != 0, live(vc, st, h) == 0)), ("nothing else is", nothing_leaked(c, (h,))),
                    ("the item no longer refers to it", And(fld(vc, st, ITEM, "handle", c[0]) == 0, Implies(h != 0, And(fld(vc, st, DATA, "ptr", d) == 0, fld(vc, st, DATA, "allocated", d) == 0, fld(vc, st, ITEM, "collection", c[0]) == 0))))]
        def mods(c):
            vc = c.vc; d = c[0] + offs(vc, ITEM, "data")
            m = {vc.p.key(DATA, f): (lambda a: a == d) for f in ("ptr", "allocated", "used")}
            for f in ("collection", "handle"): m[vc.p.key(ITEM, f)] = lambda a: a == c[0]
            m[("g", "live")] = True
            return m
        con = Contract("releaseFile", pre, post, mods)
        out.append((VC(P(), [con], builtins=FS), con))
    if fn_units("releasePartial"):
        rel = G("released")
        def pre2(c):
            vc, st = c.vc, c.old; co = fld(vc, st, ITEM, "collection", c[0])
            def h(vc, st, vs, e, fv):
                vc.oblige(st, And(vs[0] == c[0], fv == fld(vc, c.old, COL, "release", co)), "the item goes to its own collection", e)
                rel.set(vc, st, rel.get(vc, st) + 1)
                return [(st, IntVal(0))]
            on_call(vc, "fiftyoneDegreesCollection", "release", h)
            return [("the item", obj(vc, ITEM, c[0])), ("its collection", Implies(co != 0, obj(vc, COL, co))), ("none yet", rel.get(vc, st) == 0)]
        def post2(c):
            vc = c.vc
            return [("an item that holds something is released once, and no other", rel.get(vc, c.st) == If(And(fld(vc, c.old, ITEM, "handle", c[0]) != 0, fld(vc, c.old, ITEM, "collection", c[0]) != 0), 1, 0))]
        con2 = Contract("releasePartial", pre2, post2, lambda c: {rel.key: True})
        out.append((VC(P(), [con2], builtins=FS), con2))
    if fn_units("freeFileCollection"):
        def pre3(c):
            vc, st = c.vc, c.old; s = fld(vc, st, COL, "state", c[0])
            return [("the collection", obj(vc, COL, c[0])), ("allocated", And(live(vc, st, c[0]) == 1, live(vc, st, s) == 1, s != c[0], s > 0))]
        def post3(c):
            vc = c.vc; s = fld(vc, c.old, COL, "state", c[0])
            return [("the collection and its state are freed", And(live(vc, c.st, c[0]) == 0, live(vc, c.st, s) == 0)), ("nothing else is", nothing_leaked(c, (c[0], s)))]
        con3 = Contract("freeFileCollection", pre3, post3, lambda c: {("g", "live"): True})
        out.append((VC(P(), [con3], builtins=FS), con3))
    return out

CACHE, NODE, CCACHE = "fiftyoneDegreesCache", "fiftyoneDegreesCacheNode", "fiftyoneDegreesCollectionCache"
@unit("v_cached_get", "P04", "getFromCache releaseCache", native="file_collection_bounded", trusted=["CacheGet gives a node that is then held, or NULL, possibly with an exception; CacheRelease gives it back (P06)"])
def _(u):
    if not fn_units("getFromCache"): return []
    def cget(c):
        def f(vc, st, vs, e, fv):
            cc = fld(vc, c.old, COL, "state", c[0])
            vc.oblige(st, vs[0] == fld(vc, c.old, CCACHE, "cache", cc), "its own cache is asked", e)
            vc.oblige(st, Or(*[Select(vc.arr(st, ("t", 4)), vs[1]) == c[1]]), "for the key", e)
            bad = st.copy(); v = FInt("status"); set_status(vc, bad, vs[2], v)
            n = FInt("node"); st.path.append(And(obj(vc, NODE, n), gmap(vc, st, HELD, n) == 0)); gset(vc, st, HELD, n, 1)
            return [(bad, IntVal(0)), (st, n)]
        return f
    def pre(c):
        vc, st = c.vc, c.old
        vc.builtins["fiftyoneDegreesCacheGet"] = cget(c)
        def crel(vc, st, vs, e, fv):
            vc.oblige(st, gmap(vc, st, HELD, vs[0]) == 1, "only a node that is held is given back", e); gset(vc, st, HELD, vs[0], 0)
            return [(st, IntVal(0))]
        vc.builtins["fiftyoneDegreesCacheRelease"] = crel
        s = fld(vc, st, COL, "state", c[0])
        x = Int("nx"); I = c[2]; d = I + offs(vc, ITEM, "data"); nd = offs(vc, NODE, "data")
        return [p for p in item_pre(c) if p[0] != "apart"] + [("the cache", obj(vc, CCACHE, s))]
    def post(c):
        vc, st, r = c.vc, c.st, c.ret
        I = lambda f: fld(vc, st, ITEM, f, c[2]); d = c[2] + offs(vc, ITEM, "data")
        n = I("handle"); nd = n + offs(vc, NODE, "data"); x = Int("hx")
        return [("the item is a cached record, which is held", Implies(r != 0, And(n != 0, gmap(vc, st, HELD, n) == 1, gmap(vc, c.old, HELD, n) == 0, I("collection") == c[0],
                    r == fld(vc, st, DATA, "ptr", d), fld(vc, st, DATA, "used", d) > 0))),
                ("no other record is held", ForAll([x], Or(gmap(vc, st, HELD, x) == gmap(vc, c.old, HELD, x), And(r != 0, x == n)), patterns=[gmap(vc, st, HELD, x)])),
                ("no item with an exception", Implies(r != 0, okay(vc, st, c[3]))),
                ("there is nothing to release then", Implies(r == 0, n == 0))]
    con = Contract("getFromCache", pre, post, lambda c: {**item_mods(c), ("t", 4): True})
    return [(VC(P(), [con], builtins=FS), con)]

@unit("v_cache_loader", "P04", "loaderCache fiftyoneDegreesDataMalloc", native="file_collection_bounded file_collection_faults",
      trusted=["the source's get by its contract: an item that is held, whose buffer holds the bytes it uses, or NULL", "malloc and free as for reading a record"])
def _(u):
    if not fn_units("loaderCache"): return []
    src, slen, ihold = G("src"), G("slen"), G("ihold")
    def lget(c):
        def f(vc, st, vs, e, fv):
            vc.oblige(st, And(vs[0] == c[0], vs[1] == Select(vc.arr(c.old, ("t", 4)), c[2]), vs[3] == c[3]), "the source is asked for the key", e)
            vc.oblige(st, fld(vc, st, DATA, "allocated", vs[2] + offs(vc, ITEM, "data")) == 0, "with an item that owns nothing", e)
            bad = st.copy(); failed.set(vc, bad, 1); v = FInt("status"); set_status(vc, bad, vs[3], v)
            d = vs[2] + offs(vc, ITEM, "data")
            n, al = FInt("used"), FInt("allocated"); st.path.append(And(n >= 0, n <= al, al < 2**32, al > 0))
            p = vc.fresh_block(st, al, "src"); old = fld(vc, c.old, DATA, "ptr", c[1]); on = fld(vc, c.old, DATA, "allocated", c[1])
            setfld(vc, st, DATA, "ptr", d, p); setfld(vc, st, DATA, "used", d, n); setfld(vc, st, DATA, "allocated", d, al)
            src.set(vc, st, p); slen.set(vc, st, n); ihold.set(vc, st, 1)
            return [(bad, IntVal(0)), (st, p)]
        return f
    def pre(c):
        vc, st = c.vc, c.old
        on_call(vc, "fiftyoneDegreesCollection", "get", lget(c))
        def rel(vc, st, vs, e, fv):
            vc.oblige(st, ihold.get(vc, st) == 1, "an item that is held is released", e); ihold.set(vc, st, 0)
            return [(st, IntVal(0))]
        on_call(vc, "fiftyoneDegreesCollection", "release", rel)
        p, n = fld(vc, st, DATA, "ptr", c[1]), fld(vc, st, DATA, "allocated", c[1])
        return [("the collection", obj(vc, COL, c[0])), ("the key", And(addr(c[2]), region(c[2], 4), image32(vc, st, c[2]) >= 0, image32(vc, st, c[2]) < 2**32)), ("the data", obj(vc, DATA, c[1])), ("the exception", And(addr(c[3]), obj(vc, EXC, c[3]))), ("no exception yet", okay(vc, st, c[3])),
                ("its buffer", And(buffer_ok(vc, st, c[1]), Implies(n > 0, region(p, n)))), ("apart", And(apart((c[1], size_of(vc, DATA)), (c[0], size_of(vc, COL)), (c[3], size_of(vc, EXC)), (c[2], 4)), Implies(n > 0, apart((p, n), (c[1], size_of(vc, DATA)), (c[2], 4))))),
                ("ghosts", And(failed.get(vc, st) == 0, ihold.get(vc, st) == 0, slen.get(vc, st) == 0))]
    def post(c):
        vc, st = c.vc, c.st
        F = lambda x: fld(vc, st, DATA, x, c[1]); k = Int("k"); old = fld(vc, c.old, DATA, "ptr", c[1])
        return [("the item is released", ihold.get(vc, st) == 0),
                ("nothing is loaded when the source gives nothing", Implies(failed.get(vc, st) == 1, F("used") == 0)),
                ("the bytes of the source's item", Implies(F("used") > 0, And(F("used") == slen.get(vc, st), F("allocated") >= F("used"),
                    ForAll([k], Implies(And(F("ptr") <= k, k < F("ptr") + F("used")), Select(vc.arr(st, B), k) == Select(vc.arr(st, B), src.get(vc, st) + (k - F("ptr")))), patterns=[Select(vc.arr(st, B), k)])))),
                ("all of them, or an exception", Implies(And(failed.get(vc, st) == 0, okay(vc, st, c[3])), F("used") == slen.get(vc, st))),
                ("the buffer owns what it says", buffer_ok(vc, st, c[1])),
                ("nothing else is owned", nothing_leaked(c, (old, If(F("allocated") > 0, F("ptr"), old))))]
    def mods(c):
        m = data_mods(c, c[1], c[3])
        for g in (src, slen, ihold): m[g.key] = True
        return m
    con = Contract("loaderCache", pre, post, mods)
    return [(VC(P(), [con], builtins=FS), con)]
