"""IP addresses: ip.c"""
from spec import *

def P(): return prog("ip.c")
def types(vc): return [enum(vc, "FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_" + x) for x in ("IPV4", "IPV6")]

@unit("v_ip_compare", "P11", "fiftyoneDegreesCompareIpAddresses", native="ip_compare_bounded")
def _(u):
    x = Int("x")
    def size(c): v4, v6 = types(c.vc); return If(c[2] == v4, 4, If(c[2] == v6, 16, 0))
    def by(c, s, a): return Select(c.vc.arr(s, B), a)
    y = Int("y")
    def eq(c, s, n): return And(ForAll([y], Implies(And(c[0] <= y, y < c[0] + n), by(c, s, y) == by(c, s, c[1] + (y - c[0]))), patterns=[by(c, s, y)]),
                                ForAll([y], Implies(And(c[1] <= y, y < c[1] + n), by(c, s, y) == by(c, s, c[0] + (y - c[1]))), patterns=[by(c, s, y)]))
    def pre(c): return [("the addresses", And(addr(c[0]), addr(c[1]), region(c[0], size(c)), region(c[1], size(c))))]
    def post(c):
        n = size(c); s = c.old; a, b = c[0], c[1]
        first = And(a <= x, x < a + n, by(c, s, x) != by(c, s, b + (x - a)), eq(c, s, x - a))
        return [("zero if and only if the bytes are the same", (c.ret == 0) == eq(c, s, n)),
                ("the order of the first bytes that differ", ForAll([x], Implies(first, (c.ret < 0) == (by(c, s, x) < by(c, s, b + (x - a)))), patterns=[by(c, s, x)]))]
    def loop(c, sc):
        out = []
        for n, v in sc.ints():
            out += [("equal before %s" % n, lambda s, v=v: eq(c, s, v(s))), ("%s at least 0" % n, lambda s, v=v: v(s) >= 0), ("%s at most the size" % n, lambda s, v=v: v(s) <= size(c)),
                    ("%s is 0" % n, lambda s, v=v: v(s) == 0), ("%s is the size" % n, lambda s, v=v: v(s) == size(c)), ("%s counts down the size" % n, lambda s, v=v: v(s) <= size(c))]
        for n, v in sc.ptrs():
            for i in (0, 1):
                out += [("%s within argument %d" % (n, i), lambda s, v=v, i=i: And(v(s) >= c[i], v(s) <= c[i] + size(c))),
                        ("equal before %s" % n, lambda s, v=v, i=i: eq(c, s, v(s) - c[i]))]
            for n2, v2 in sc.ptrs():
                if n2 != n: out.append(("%s and %s at one index" % (n, n2), lambda s, v=v, v2=v2: v(s) - c[0] == v2(s) - c[1]))
        return out
    con = Contract("fiftyoneDegreesCompareIpAddresses", pre, post, loop=loop)
    return [(VC(P(), [con]), con)]
