"""Unique headers of any number: headers.c"""
from spec import *

HDR, HDRS = "fiftyoneDegreesHeader", "fiftyoneDegreesHeaders"
def P(): return prog("headers.c")
def rn(vc, t): return vc.p.tu.records[vc.p.parse(t).id]["name"]
def H(vc, st, f, a): return fld(vc, st, HDR, f, a)
def hdr_at(vc, st, h, i): return fld(vc, st, HDRS, "items", h) + size_of(vc, HDR) * i
def hdrs_ok(vc, st, h):
    it, n = fld(vc, st, HDRS, "items", h), fld(vc, st, HDRS, "count", h)
    a = Int("ha"); z = size_of(vc, HDR)
    nm, ln = H(vc, st, "name", a), H(vc, st, "nameLength", a)
    x, y = Int("hx"), Int("hy")
    return And(obj(vc, HDRS, h), n >= 0, n < 2**31, it >= 0, it < 2**61, Implies(n > 0, And(it > 0, region(it, z * n))),
               FA([a], Implies(And(it <= a, a < it + z * n, (a - it) % z == 0), And(addr(nm), ln >= 0, ln < 2**61, ForAll([x, y], Implies(And(nm <= x, y >= 0, x + y <= nm + ln), ok0(x, y)), patterns=[ok0(x, y)]))), nm))

def scan_templates(c, sc, bad, count, items, z, rec):
    """no item up to a position satisfies what is looked for; count and items are of the state"""
    out = []
    i = Int("si")
    for n, v in sc.ints():
        out.append(("none below %s" % n, lambda s, v=v: ForAll([i], Implies(And(0 <= i, i < v(s)), Not(bad(s, i))))))
        out.append(("%s at most the count" % n, lambda s, v=v: v(s) <= count))
        out.append(("%s at least 0" % n, lambda s, v=v: v(s) >= 0))
        out.append(("none from %s" % n, lambda s, v=v: ForAll([i], Implies(And(v(s) <= i, i < count), Not(bad(s, i))))))
    for n, v in sc.ptrs(rec):
        out.append(("none before %s" % n, lambda s, v=v: ForAll([i], Implies(And(0 <= i, items + z * i < v(s)), Not(bad(s, i))))))
        out.append(("%s in the items" % n, lambda s, v=v: And(v(s) >= items, v(s) <= items + z * count, (v(s) - items) % z == 0)))
    return out

@unit("v_header_index", "P16", "fiftyoneDegreesHeaderGetIndex", native="headers_bounded", trusted=["StringCompareLength by its contract (P10)"])
def _(u):
    i, x = Int("i"), Int("x")
    def looked(c):
        """where the name looked for starts, and its length"""
        vc, st = c.vc, c.old; m = vc.arr(st, B)
        pre = And(fld(vc, st, HDRS, "expectUpperPrefixedHeaders", c[0]) != 0, c[2] > 5, *[low(sg(Select(m, c[1] + k))) == ord(ch) for k, ch in enumerate("http_")])
        return If(pre, c[1] + 5, c[1]), If(pre, c[2] - 5, c[2])
    def match(c, s, i):
        vc = c.vc; a, n = looked(c); h = hdr_at(vc, c.old, c[0], i)
        return And(H(vc, c.old, "nameLength", h) == n, eqch(a, H(vc, c.old, "name", h), n))
    def cnt(c): return fld(c.vc, c.old, HDRS, "count", c[0])
    def pre(c):
        b = fld(c.vc, c.old, HDRS, "expectUpperPrefixedHeaders", c[0])
        return [("the headers", hdrs_ok(c.vc, c.old, c[0])), ("the name", And(addr(c[1]), c[2] >= 0, c[2] < 2**61, region(c[1], c[2]))), ("a flag", Or(b == 0, b == 1))]
    def post(c):
        return [("the header with the name", Implies(c.ret >= 0, And(c.ret < cnt(c), match(c, c.old, c.ret)))),
                ("the first one", Implies(c.ret >= 0, ForAll([i], Implies(And(0 <= i, i < c.ret), Not(match(c, c.old, i)))))),
                ("or none, if there is none", Implies(c.ret < 0, And(c.ret == -1, ForAll([i], Implies(And(0 <= i, i < cnt(c)), Not(match(c, c.old, i)))))))]
    def loop(c, sc):
        vc = c.vc
        return scan_templates(c, sc, lambda s, i: match(c, s, i), cnt(c), fld(vc, c.old, HDRS, "items", c[0]), size_of(vc, HDR), rn(vc, HDR))
    con = Contract("fiftyoneDegreesHeaderGetIndex", pre, post, loop=loop)
    vc = VC(P(), [con], builtins=dict(STRINGS)); vc.strings = True
    return [(vc, con)]

@unit("v_header_unique_id", "P16", "fiftyoneDegreesHeadersGetHeaderFromUniqueId", native="headers_bounded")
def _(u):
    i = Int("i")
    def cnt(c): return fld(c.vc, c.old, HDRS, "count", c[0])
    def match(c, i): return H(c.vc, c.old, "uniqueId", hdr_at(c.vc, c.old, c[0], i)) == c[1]
    def pre(c): return [("the headers", hdrs_ok(c.vc, c.old, c[0]))]
    def post(c):
        vc = c.vc; it = fld(vc, c.old, HDRS, "items", c[0]); z = size_of(vc, HDR)
        return [("a header with the identifier", Implies(c.ret != 0, And(it <= c.ret, c.ret < it + z * cnt(c), (c.ret - it) % z == 0, H(vc, c.old, "uniqueId", c.ret) == c[1]))),
                ("or none, if there is none", Implies(c.ret == 0, ForAll([i], Implies(And(0 <= i, i < cnt(c)), Not(match(c, i))))))]
    def loop(c, sc):
        vc = c.vc
        return scan_templates(c, sc, lambda s, i: match(c, i), cnt(c), fld(vc, c.old, HDRS, "items", c[0]), size_of(vc, HDR), rn(vc, HDR))
    con = Contract("fiftyoneDegreesHeadersGetHeaderFromUniqueId", pre, post, loop=loop)
    return [(VC(P(), [con]), con)]

@unit("v_headers_free", "P16", "fiftyoneDegreesHeadersFree", native="headers_bounded", trusted=["free takes NULL or an allocated block, once"])
def _(u):
    a, i, b = Int("fa"), Int("fi"), Int("fb")
    OWN = ("g", "owner")        # which header owns a block: as a name 2a, as segments 2a + 1
    def cnt(c): return fld(c.vc, c.old, HDRS, "count", c[0])
    def isit(c, a):
        it = fld(c.vc, c.old, HDRS, "items", c[0]); z = size_of(c.vc, HDR)
        return And(it <= a, a < it + z * cnt(c), (a - it) % z == 0)
    def own(c, b): return Select(c.vc.arr(c.old, OWN), b)
    def freed(c, s, upto):
        """the blocks of the headers for which upto holds are freed, and no others"""
        return FA([b], live(c.vc, s, b) == If(And(own(c, b) > 0, upto(own(c, b) / 2)), 0, live(c.vc, c.old, b)), live(c.vc, s, b))
    def pre(c):
        vc, st = c.vc, c.old
        nm, sg_ = H(vc, st, "name", a), H(vc, st, "segments", a)
        return [("the headers, or NULL", Implies(c[0] != 0, And(hdrs_ok(vc, st, c[0]), live(vc, st, c[0]) == 1, own(c, c[0]) == 0))),
                ("their names and segments", Implies(c[0] != 0, And(
                    FA([a], Implies(isit(c, a), And(nm > 0, sg_ > 0, live(vc, st, nm) == 1, live(vc, st, sg_) == 1, own(c, nm) == 2 * a, own(c, sg_) == 2 * a + 1, nm != sg_)), nm),
                    FA([b], Implies(own(c, b) > 0, And(b > 0, isit(c, own(c, b) / 2), Or(b == H(vc, st, "name", own(c, b) / 2), b == H(vc, st, "segments", own(c, b) / 2)))), own(c, b)),
                    FA([b], own(c, b) >= 0, own(c, b))))), ("nothing at NULL", live(vc, st, IntVal(0)) == 0)]
    def post(c):
        return [("everything the headers had is freed", Implies(c[0] != 0, And(live(c.vc, c.st, c[0]) == 0, FA([b], Implies(own(c, b) > 0, live(c.vc, c.st, b) == 0), live(c.vc, c.st, b))))),
                ("and nothing else", FA([b], Implies(And(own(c, b) == 0, b != c[0]), live(c.vc, c.st, b) == live(c.vc, c.old, b)), live(c.vc, c.st, b)))]
    def loop(c, sc):
        vc = c.vc; it = fld(vc, c.old, HDRS, "items", c[0]); z = size_of(vc, HDR); out = []
        for n, v in sc.ints():
            out += [("freed below %s" % n, lambda s, v=v: freed(c, s, lambda x: And(isit(c, x), x < it + z * v(s)))), ("%s at most the count" % n, lambda s, v=v: And(0 <= v(s), v(s) <= cnt(c))),
                    ("freed from %s" % n, lambda s, v=v: freed(c, s, lambda x: And(isit(c, x), x >= it + z * v(s))))]
        for n, v in sc.ptrs(rn(vc, HDR)):
            out += [("freed before %s" % n, lambda s, v=v: freed(c, s, lambda x: And(isit(c, x), x < v(s)))), ("%s in the items" % n, lambda s, v=v: And(v(s) >= it, v(s) <= it + z * cnt(c), (v(s) - it) % z == 0))]
        return out
    con = Contract("fiftyoneDegreesHeadersFree", pre, post, lambda c: {("g", "live"): True}, loop=loop)
    return [(VC(P(), [con], builtins=HEAP), con)]
