"""Collections in memory, for images, headers, indices and offsets of any size: collection.c, memory.c"""
from spec import *

COL, MEM, ITEM, RD, HD, DATA = ["fiftyoneDegrees" + x for x in ("Collection", "CollectionMemory", "CollectionItem", "MemoryReader", "CollectionHeader", "Data")]
def P(): return prog("collection.c", "memory.c", "data.c")

def reader(c, r, st=None):
    """the reader is in an image: start, current, last"""
    vc, st = c.vc, st or c.old
    return [fld(vc, st, RD, f, r) for f in ("startByte", "current", "lastByte")]
def reader_pre(c, r):
    s, cur, last = reader(c, r)
    return [("the reader", obj(c.vc, RD, r)), ("the image", And(addr(s), s <= cur, cur <= last, last < 2**62, region(s, last - s))),
            ("the reader is not in the image", Or(r + size_of(c.vc, RD) <= s, last <= r))]
def reader_mods(c, r): return {c.vc.p.key(RD, "current"): lambda a: a == r}

def advance(vc=None):
    def pre(c): return reader_pre(c, c[0])
    def post(c):
        s, cur, last = reader(c, c[0]); _, now, _ = reader(c, c[0], c.st)
        return [("moved as far as asked, if the image goes that far", Implies(c[1] <= last - cur, And(c.ret == 1, now == cur + c[1]))),
                ("otherwise not moved", Implies(c[1] > last - cur, And(c.ret == 0, now == cur)))]
    return Contract("fiftyoneDegreesMemoryAdvance", pre, post, lambda c: reader_mods(c, c[0]))

@unit("v_memory_advance", "P03", "fiftyoneDegreesMemoryAdvance", native="memory_collection_bounded")
def _(u):
    con = advance()
    return [(VC(prog("memory.c"), [con]), con)]

@unit("v_memory_header", "P03", "fiftyoneDegreesCollectionHeaderFromMemory", native="memory_collection_bounded")
def _(u):
    def pre(c): return reader_pre(c, c[0])
    def post(c):
        vc = c.vc; s, cur, last = reader(c, c[0]); _, now, _ = reader(c, c[0], c.st)
        h = [fld(vc, c.st, HD, f, c.ret) for f in ("startPosition", "length", "count")]
        v = image32(vc, c.old, cur)
        room = last - cur >= 4
        over = And(c[2] != 0, v * c[1] > 2**32 - 1)
        return [("the reader stays inside the image", And(s <= now, now <= last)),
                ("the header is four bytes", Implies(room, now == cur + 4)),
                ("no header, no collection", Implies(Not(room), And(h[1] == 0, h[2] == 0))),
                ("no image holds that many items", Implies(And(room, over), And(h[1] == 0, h[2] == 0))),
                ("the collection starts after its header", Implies(And(room, Not(over)), h[0] == (cur + 4 - s) % 2**32)),
                ("a count as announced", Implies(And(room, Not(over), c[2] != 0), And(h[2] == v, h[1] == v * c[1]))),
                ("a size as announced", Implies(And(room, c[2] == 0), And(h[1] == v, h[2] == If(c[1] > 0, v / c[1], 0))))]
    con = Contract("fiftyoneDegreesCollectionHeaderFromMemory", pre, post, lambda c: reader_mods(c, c[0]))
    return [(VC(P(), [con, advance()]), con)]

def width(h): return If(h[2] == 0, 0, h[1] / h[2])
@unit("v_memory_create", "P03", "fiftyoneDegreesCollectionCreateFromMemory createCollection freeMemoryCollection", native="memory_collection_bounded",
      trusted=["malloc fails or gives a fresh block of the size asked for; free takes NULL or an allocated block, once"])
def _(u):
    def pre(c): return reader_pre(c, c[0])
    def post(c):
        vc, st, r = c.vc, c.st, c.ret
        s, cur, last = reader(c, c[0]); _, now, _ = reader(c, c[0], st)
        h = [fld(vc, c.old, HD, f, c[1]) for f in ("startPosition", "length", "count")]
        fits = And((cur - s) % 2**32 == h[0], h[1] <= last - cur)
        F = lambda f: fld(vc, st, COL, f, r)
        m = F("state")
        M = lambda f: fld(vc, st, MEM, f, m)
        return [("refused unless it fits the image", Implies(r != 0, fits)),
                ("refused only if it does not fit, or for want of memory", Implies(And(r == 0, st.ghost.get("malloc_failed", 0) == 0), Not(fits))),
                ("a refused collection owns nothing", Implies(r == 0, nothing_leaked(c))),
                ("the reader stays inside the image", And(s <= now, now <= last)),
                ("the reader is moved past the collection", Implies(r != 0, now == cur + h[1])),
                ("the collection owns itself and its state only", Implies(r != 0, And(live(vc, st, r) == 1, live(vc, st, m) == 1, nothing_leaked(c, (r, m))))),
                ("it covers its bytes", Implies(r != 0, And(M("firstByte") == cur, M("lastByte") == cur + h[1], M("memoryToFree") == 0, M("collection") == r, F("next") == 0, F("size") == h[1], F("elementSize") == width(h)))),
                ("its items are inside its bytes", Implies(And(r != 0, F("elementSize") != 0), And(F("count") == h[1] / width(h), F("count") * F("elementSize") <= h[1]))),
                ("its methods", Implies(r != 0, And(F("get") == If(F("elementSize") != 0, vc.fn_addr("getMemoryFixed"), vc.fn_addr("getMemoryVariable")),
                    F("release") == vc.fn_addr("releaseNothing"), F("freeCollection") == vc.fn_addr("freeMemoryCollection"))))]
    def mods(c):
        return {**reader_mods(c, c[0]), ("g", "live"): True}
    con = Contract("fiftyoneDegreesCollectionCreateFromMemory", pre, post, mods)
    return [(VC(P(), [con, advance()], builtins=HEAP), con)]

def getter(name, fixed, partial):
    def pre(c):
        vc, st = c.vc, c.old
        F = lambda f: fld(vc, st, COL, f, c[0])
        m = F("state"); M = lambda f: fld(vc, st, MEM, f, m)
        w, n, size = F("elementSize"), F("count"), F("size")
        dp = fld(vc, st, DATA, "allocated", c[2] + offs(vc, ITEM, "data"))
        return [("the collection", And(obj(vc, COL, c[0]), obj(vc, MEM, m))), ("the item", obj(vc, ITEM, c[2])),
                ("the exception", And(c[3] >= 0, Implies(c[3] != 0, obj(vc, "fiftyoneDegreesException", c[3])))),
                ("apart", And(*[Or(a + x <= b, b + y <= a) for i, (a, x) in enumerate(objs(c, m)) for b, y in objs(c, m)[:i]])),
                ("no exception yet", okay(vc, st, c[3])),
                ("bytes", And(addr(M("firstByte")), M("lastByte") == M("firstByte") + size)),
                ("items", Implies(fixed, And(w > 0, n * w <= size))),
                ("an item's buffer is allocated", Implies(dp > 0, live(vc, st, fld(vc, st, DATA, "ptr", c[2] + offs(vc, ITEM, "data"))) == 1)),
                vc.lemma("an item before the last starts a width before the end", Implies(And(0 <= c[1], c[1] < n, w > 0, n * w <= size), And(c[1] * w >= 0, c[1] * w + w <= size)))]
    def objs(c, m):
        vc = c.vc
        return [(c[0], size_of(vc, COL)), (m, size_of(vc, MEM)), (c[2], size_of(vc, ITEM))]
    def post(c):
        vc, st, r = c.vc, c.st, c.ret
        F = lambda f: fld(vc, c.old, COL, f, c[0])
        m = F("state"); first = fld(vc, c.old, MEM, "firstByte", m); last = fld(vc, c.old, MEM, "lastByte", m)
        w, size = F("elementSize"), F("size")
        d = c[2] + offs(vc, ITEM, "data")
        there = c[1] < (F("count") if fixed else size)
        step, start = (w, c[1] * w) if fixed else (1, c[1])
        out = [("the address of the item asked for", Implies(there, r == first + start)),
               ("the item is inside the collection", Implies(there, And(first <= r, r + step <= last))),
               ("no exception for an item that is there", Implies(there, okay(vc, st, c[3]))),
               ("the item is the one returned", And(fld(vc, st, DATA, "ptr", d) == r, Implies(there, fld(vc, st, ITEM, "collection", c[2]) == c[0])))]
        status_ = enum(vc, "FIFTYONE_DEGREES_STATUS_COLLECTION_%s_OUT_OF_RANGE" % ("INDEX" if fixed else "OFFSET"))
        gone = Not(there) if not partial else And(Not(there), F("next") == 0)
        out += [("no item outside the collection", Implies(gone, And(r == 0, fld(vc, st, DATA, "allocated", d) == 0, fld(vc, st, DATA, "used", d) == 0))),
                ("out of range is reported", Implies(And(gone, c[3] != 0), status(vc, st, c[3]) == status_))]
        if partial:
            out.append(("a loaded item holds no buffer of its own", Implies(there, And(fld(vc, st, DATA, "allocated", d) == 0, fld(vc, st, ITEM, "handle", c[2]) == 0))))
            out.append(("the next collection is asked for the others", Implies(And(Not(there), F("next") != 0), And(asked.get(vc, st) == 1, r == fld(vc, st, DATA, "ptr", d)))))
            out.append(("the next collection is asked for no other", Implies(there, asked.get(vc, st) == 0)))
        return out
    def mods(c):
        vc = c.vc; d = c[2] + offs(vc, ITEM, "data")
        m = exc_mods(vc, c[3])
        for f in ("ptr", "allocated", "used"): m[vc.p.key(DATA, f)] = lambda a: a == d
        for f in ("collection", "handle"): m[vc.p.key(ITEM, f)] = lambda a: a == c[2]
        m[("g", "live")] = lambda a: a == fld(vc, c.old, DATA, "ptr", d)
        m[asked.key] = True
        return m
    return Contract(name, pre, post, mods)
asked = G("asked")

@unit("v_memory_get", "P03", "getMemoryFixed getMemoryVariable", native="memory_collection_bounded")
def _(u):
    out = []
    for name, fixed in (("getMemoryFixed", True), ("getMemoryVariable", False)):
        if P().body(name) is None: continue
        con = getter(name, fixed, False)
        out.append((VC(P(), [con], builtins=HEAP), con))
    return out

def h_next(c):
    """the next collection's get: the item is whatever it makes it"""
    def f(vc, st, vs, e, fv):
        nxt = fld(vc, c.old, COL, "next", c[0])
        vc.oblige(st, And(vs[0] == nxt, vs[1] == c[1], vs[2] == c[2], vs[3] == c[3]), "the next collection is asked for the same item", e)
        asked.set(vc, st, 1)
        d = c[2] + offs(vc, ITEM, "data"); p = FInt("ptr"); st.path.append(And(p >= 0, p < 2**62))
        setfld(vc, st, DATA, "ptr", d, p)
        for t, x, a in ((DATA, "allocated", d), (DATA, "used", d), (ITEM, "handle", c[2]), (ITEM, "collection", c[2])): setfld(vc, st, t, x, a, FInt(x))
        set_status(vc, st, c[3], FInt("status"))
        return [(st, p)]
    return f

@unit("v_partial_get", "P04", "getPartialFixed getPartialVariable", native="file_collection_bounded", trusted=["the next collection's get by its contract: the item's data is what it returns"])
def _(u):
    out = []
    for name, fixed in (("getPartialFixed", True), ("getPartialVariable", False)):
        if P().body(name) is None: continue
        con = getter(name, fixed, True)
        vc = VC(P(), [con], builtins=HEAP)
        pre0 = con.pre
        def pre(c, pre0=pre0):
            on_call(c.vc, "fiftyoneDegreesCollection", "get", h_next(c))
            nx = fld(c.vc, c.old, COL, "next", c[0])
            return pre0(c) + [("not asked", asked.get(c.vc, c.old) == 0), ("next", Implies(nx != 0, obj(c.vc, COL, nx)))]
        con.pre = pre
        out.append((vc, con))
    return out
