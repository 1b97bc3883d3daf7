"""Evidence of any size: evidence.c"""
from spec import *

PAIR, ARR = "fiftyoneDegreesEvidenceKeyValuePair", "fiftyoneDegreesEvidenceKeyValuePairArray"
def P(): return prog("evidence.c")
VIS, CNT, STOP, STOPAT = ("g", "visited"), G("visits"), G("stopped"), G("stoppedat")
def arr_ok(vc, st, e):
    """an array of evidence with its items"""
    it, n, cap = (fld(vc, st, ARR, f, e) for f in ("items", "count", "capacity"))
    z = size_of(vc, PAIR)
    return And(obj(vc, ARR, e), n >= 0, n <= cap, cap < 2**32, it >= 0, it < 2**61, Implies(cap > 0, And(it > 0, region(it, z * cap), Or(it + z * cap <= e, e + size_of(vc, ARR) <= it))))
def item_at(vc, st, e, a, lo=0, hi=None):
    it, n = fld(vc, st, ARR, "items", e), fld(vc, st, ARR, "count", e); z = size_of(vc, PAIR)
    return And(it + z * lo <= a, a < it + z * (n if hi is None else hi), (a - it) % z == 0)
def U32(v): return If(v < 0, v + 2**32, v)

@unit("v_evidence_add", "P15", "fiftyoneDegreesEvidenceAddString fiftyoneDegreesEvidenceFree fiftyoneDegreesEvidenceCreate", native="evidence_store_bounded",
      trusted=["malloc fails or gives a fresh block of the size asked for"])
def _(u):
    def pre(c): return [("the evidence", arr_ok(c.vc, c.old, c[0]))]
    def at(c): return fld(c.vc, c.old, ARR, "items", c[0]) + size_of(c.vc, PAIR) * fld(c.vc, c.old, ARR, "count", c[0])
    def post(c):
        vc, st = c.vc, c.st; n, cap = fld(vc, c.old, ARR, "count", c[0]), fld(vc, c.old, ARR, "capacity", c[0])
        return [("the entry, if there is room for it", Implies(n < cap, And(c.ret == at(c), fld(vc, st, ARR, "count", c[0]) == n + 1, *[fld(vc, st, PAIR, f, at(c)) == v for f, v in (("prefix", c[1]), ("field", c[2]), ("originalValue", c[3]), ("parsedValue", 0))]))),
                ("otherwise nothing", Implies(n >= cap, And(c.ret == 0, fld(vc, st, ARR, "count", c[0]) == n)))]
    def mods(c): return merge_mods(rec_mods(c.vc, PAIR, lambda a: And(a == at(c), fld(c.vc, c.old, ARR, "count", c[0]) < fld(c.vc, c.old, ARR, "capacity", c[0]))), {c.vc.p.key(ARR, "count"): lambda a: a == c[0]})
    con = Contract("fiftyoneDegreesEvidenceAddString", pre, post, mods)
    con2 = Contract("fiftyoneDegreesEvidenceFree", lambda c: [("allocated", live(c.vc, c.old, c[0]) == 1)],
        lambda c: [("freed", live(c.vc, c.st, c[0]) == 0), ("and nothing else", nothing_leaked(c, (c[0],)))], lambda c: {("g", "live"): True})
    def cpost(c):
        vc, st, r = c.vc, c.st, c.ret; a = Int("ia"); z = size_of(vc, PAIR)
        it = fld(vc, st, ARR, "items", r)
        ign = enum(vc, "FIFTYONE_DEGREES_EVIDENCE_IGNORE")
        return [("empty, with room for the capacity", Implies(r != 0, And(live(vc, st, r) == 1, fld(vc, st, ARR, "count", r) == 0, fld(vc, st, ARR, "capacity", r) == c[0], fld(vc, st, ARR, "pseudoEvidence", r) == 0, vc.okf(st, it, z * c[0]), nothing_leaked(c, (r,))))),
                ("entries that are ignored", Implies(r != 0, ForAll([a], Implies(And(it <= a, a < it + z * c[0], (a - it) % z == 0), And(fld(vc, st, PAIR, "prefix", a) == ign, *[fld(vc, st, PAIR, f, a) == 0 for f in ("field", "originalValue", "parsedValue")]))))),
                ("or none, for want of memory", Implies(r == 0, And(nothing_leaked(c), st.ghost.get("malloc_failed", 0) != 0)))]
    def loop(c, sc):
        vc = c.vc; a = Int("ia"); z = size_of(vc, PAIR); out = []
        ign = enum(vc, "FIFTYONE_DEGREES_EVIDENCE_IGNORE")
        for rn, r in sc.ptrs(vc.p.tu.records[vc.p.parse(ARR).id]["name"]):
            for n, v in sc.ints():
                out.append(("%s at most the capacity of %s" % (n, rn), lambda s, v=v, r=r: And(v(s) >= 0, v(s) <= c[0])))
                for f, w in (("prefix", ign), ("field", 0), ("originalValue", 0), ("parsedValue", 0)):
                    out.append(("%s set below %s of %s" % (f, n, rn), lambda s, v=v, r=r, f=f, w=w: (lambda it: FA([a], Implies(And(it <= a, a < it + z * v(s), (a - it) % z == 0), fld(vc, s, PAIR, f, a) == w), fld(vc, s, PAIR, f, a)))(fld(vc, s, ARR, "items", r(s)))))
        return out
    con3 = Contract("fiftyoneDegreesEvidenceCreate", None, cpost, lambda c: {("g", "live"): True}, loop=loop)
    return [(VC(P(), [con], builtins=HEAP), con), (VC(P(), [con2], builtins=HEAP), con2), (VC(P(), [con3], builtins=HEAP), con3)]

@unit("v_evidence_iterate", "P15", "fiftyoneDegreesEvidenceIterate evidenceIterateSub parsePair", native="evidence_store_bounded",
      trusted=["the callback does not change the evidence; bitwise and as a function of two integers"])
def _(u):
    def sides(c):
        vc, st = c.vc, c.old
        return c[0], fld(vc, st, ARR, "pseudoEvidence", c[0])
    def matches(c, s, a):
        p = fld(c.vc, s, PAIR, "prefix", a)
        return band(p, U32(c[1])) == p
    def member(c, a):
        e, ps = sides(c)
        return Or(item_at(c.vc, c.old, e, a), And(ps != 0, item_at(c.vc, c.old, ps, a)))
    def before(c, a, b):
        """entry a comes before entry b"""
        e, ps = sides(c)
        return Or(And(item_at(c.vc, c.old, e, a), item_at(c.vc, c.old, e, b), a < b), And(item_at(c.vc, c.old, e, a), ps != 0, item_at(c.vc, c.old, ps, b)),
                  And(ps != 0, item_at(c.vc, c.old, ps, a), item_at(c.vc, c.old, ps, b), a < b))
    a = Int("ia")
    def vis(vc, s, x): return gmap(vc, s, VIS, x)
    def done(c, s, upto):
        """exactly the matching entries for which upto holds were visited"""
        vc = c.vc
        return FA([a], vis(vc, s, a) == If(And(upto(a), matches(c, c.old, a)), 1, 0), vis(vc, s, a))
    def pre(c):
        vc, st = c.vc, c.old; e, ps = sides(c); z = size_of(vc, PAIR)
        def cb(vc, st, vs, e_, fv):
            x = vs[1]
            vc.oblige(st, fv == c[3], "the call is to the callback", e_)
            vc.oblige(st, vs[0] == c[2], "the callback gets the state", e_)
            vc.oblige(st, And(member(c, x), matches(c, c.old, x)), "only entries with an accepted prefix are visited", e_)
            vc.oblige(st, STOP.get(vc, st) == 0, "nothing is visited once the callback said to stop", e_)
            vc.oblige(st, vis(vc, st, x) == 0, "an entry is visited once", e_)
            vc.oblige(st, FA([a], Implies(And(before(c, a, x), matches(c, c.old, a)), vis(vc, st, a) == 1), vis(vc, st, a)), "entries are visited in order", e_)
            o, pv = fld(vc, c.old, PAIR, "originalValue", x), fld(vc, c.old, PAIR, "parsedValue", x)
            vc.oblige(st, fld(vc, st, PAIR, "parsedValue", x) == If(pv == 0, o, pv), "the entry has its value", e_)
            gset(vc, st, VIS, x, 1); CNT.set(vc, st, CNT.get(vc, st) + 1)
            s2 = st.copy(); STOP.set(vc, s2, 1); STOPAT.set(vc, s2, x)
            return [(st, IntVal(1)), (s2, IntVal(0))]
        vc.builtins["var:*"] = cb
        def its(x): return fld(vc, st, ARR, "items", x), z * fld(vc, st, ARR, "capacity", x)
        return [("the evidence", arr_ok(vc, st, e)), ("the pseudo evidence", Implies(ps != 0, And(arr_ok(vc, st, ps), ps != e, apart(its(e), its(ps), (e, size_of(vc, ARR)), (ps, size_of(vc, ARR)))))),
                ("nothing visited yet", And(FA([a], vis(vc, st, a) == 0, vis(vc, st, a)), CNT.get(vc, st) == 0, STOP.get(vc, st) == 0))]
    def post(c):
        vc, st = c.vc, c.st; at = STOPAT.get(vc, st)
        return [("the number visited", c.ret == CNT.get(vc, st) % 2**32),
                ("every entry with an accepted prefix was visited, unless stopped", Implies(STOP.get(vc, st) == 0, FA([a], Implies(And(member(c, a), matches(c, c.old, a)), vis(vc, st, a) == 1), vis(vc, st, a)))),
                ("and everything before the one that stopped", Implies(STOP.get(vc, st) == 1, FA([a], Implies(And(before(c, a, at), matches(c, c.old, a)), vis(vc, st, a) == 1), vis(vc, st, a))))]
    def mods(c):
        vc = c.vc
        return {VIS: True, CNT.key: True, STOP.key: True, STOPAT.key: True, vc.p.key(PAIR, "parsedValue"): lambda x: And(member(c, x), fld(vc, c.old, PAIR, "parsedValue", x) == 0)}
    def loop(c, sc):
        vc = c.vc; e, ps = sides(c); out = []; z = size_of(vc, PAIR)
        for n, v in sc.ints():
            out.append(("main: done below %s" % n, lambda s, v=v: done(c, s, lambda x: item_at(vc, c.old, e, x, 0, v(s)))))
            out.append(("pseudo: done below %s" % n, lambda s, v=v: done(c, s, lambda x: Or(item_at(vc, c.old, e, x), And(ps != 0, item_at(vc, c.old, ps, x, 0, v(s)))))))
            out.append(("%s at most count" % n, lambda s, v=v: v(s) <= fld(vc, c.old, ARR, "count", e)))
            out.append(("%s at most pseudo count" % n, lambda s, v=v: v(s) <= fld(vc, c.old, ARR, "count", ps)))
            out.append(("%s is the number visited" % n, lambda s, v=v: v(s) == CNT.get(vc, s) % 2**32))
            out.append(("%s since entry" % n, lambda s, v=v: v(s) == (CNT.get(vc, s) - CNT.get(vc, sc.entry)) % 2**32))
            out.append(("%s goes on unless stopped" % n, lambda s, v=v: Or(And(v(s) == 1, STOP.get(vc, s) == 0), And(v(s) == 0, STOP.get(vc, s) == 1))))
        def stopped(s):
            at = STOPAT.get(vc, s)
            return Implies(STOP.get(vc, s) == 1, And(vis(vc, s, at) == 1, FA([a], Implies(And(before(c, a, at), matches(c, c.old, a)), vis(vc, s, a) == 1), vis(vc, s, a))))
        out.append(("stopped at the last one", stopped))
        out.append(("stopped or not", lambda s: Or(STOP.get(vc, s) == 0, STOP.get(vc, s) == 1)))
        for b in sc.boolptrs() if hasattr(sc, "boolptrs") else []: pass
        k = ("t", 1)
        def flag(s): return None
        for n, v in sc.ptrs():
            out.append(("*%s says whether stopped" % n, lambda s, v=v: Select(vc.arr(s, k), v(s)) == 1 - STOP.get(vc, s)))
        x = Int("px")
        out.append(("parsed values", lambda s: FA([a], Or(fld(vc, s, PAIR, "parsedValue", a) == fld(vc, c.old, PAIR, "parsedValue", a), And(vis(vc, s, a) == 1, fld(vc, c.old, PAIR, "parsedValue", a) == 0)), fld(vc, s, PAIR, "parsedValue", a))))
        return out
    con = Contract("fiftyoneDegreesEvidenceIterate", pre, post, mods, loop=loop)
    return [(VC(P(), [con], builtins=HEAP), con)]
