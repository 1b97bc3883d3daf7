"""String comparison, for strings of any length: string.c"""
from spec import *

la, lb, k = Int("la"), Int("lb"), Int("k")

def cstring(m, a, n, name):
    """a holds n characters, none of them NUL, and a NUL; readable"""
    x = Int("x")
    return [("string " + name, And(a > 0, n >= 0, a + n < 2**62, Select(m, a + n) == 0,
        ForAll([k], Implies(And(a <= k, k < a + n), Select(m, k) != 0), patterns=[Select(m, k)]),
        ForAll([x], Implies(And(a <= x, x <= a + n), ok0(x, 1)), patterns=[ok0(x, 1)])))]

def same(m, a, b, n):
    """n characters at a and at b are equal ignoring case (quantified over
    addresses of either side, so that a solver finds the instances)"""
    x = Int("same_x")
    l = lambda y: low(sg(Select(m, y)))
    return And(ForAll([x], Implies(And(a <= x, x < a + n), l(x) == l(b + (x - a))), patterns=[Select(m, x)]),
               ForAll([x], Implies(And(b <= x, x < b + n), l(x) == l(a + (x - b))), patterns=[Select(m, x)]))

def ch(m, a, i): return low(sg(Select(m, a + i)))

def templates(c, sc, lens, extra=()):
    """invariants over whatever character pointers and integers the loop has"""
    m = lambda s: c.vc.arr(s, B)
    out = []
    ps, ns = sc.charptrs(), sc.ints()
    for n, v in ps:
        for i, L in lens:
            out.append(("%s within argument %d" % (n, i), lambda s, v=v, i=i, L=L: And(c[i] <= v(s), v(s) <= c[i] + L)))
    for n, v in ps:
        for n2, v2 in ps:
            for i in (0, 1):
                for j in (0, 1):
                    if n == n2: continue
                    out.append(("%s and %s at one index" % (n, n2), lambda s, v=v, v2=v2, i=i, j=j: v(s) - c[i] == v2(s) - c[j]))
    for i in (0, 1):
        for n, v in ps:
            out.append(("equal before %s" % n, lambda s, v=v, i=i: same(m(s), c[0], c[1], v(s) - c[i])))
            for n2, v2 in ns:
                out.append(("%s is index %s" % (n, n2), lambda s, v=v, v2=v2, i=i: v(s) - c[i] == v2(s)))
    for n, v in ns:
        out.append(("equal before index %s" % n, lambda s, v=v: same(m(s), c[0], c[1], v(s))))
        for i, L in lens:
            out.append(("%s at most length" % n, lambda s, v=v, L=L: And(v(s) >= 0, v(s) <= L)))
        if sc.entry.mem is not None and len(c.args) > 2:
            out.append(("%s at most argument 2" % n, lambda s, v=v: And(v(s) >= 0, v(s) <= c[2])))
    return out

def spec_order(c, r, n):
    """r has the sign of the first difference at an index below n: zero if and
    only if there is none (the sign is only fixed between ASCII characters)"""
    m = c.vc.arr(c.old, B); a, b = c[0], c[1]
    x = Int("x")
    y = b + (x - a)
    l = lambda z: low(sg(Select(m, z)))
    first = And(a <= x, x < a + n, l(x) != l(y), same(m, a, b, x - a))
    ascii = And(sg(Select(m, x)) >= 0, sg(Select(m, y)) >= 0)
    return [("zero if and only if equal ignoring case", (r == 0) == same(m, a, b, n)),
            ("sign of the first difference", ForAll([x], Implies(And(first, ascii), (r < 0) == (l(x) < l(y))), patterns=[Select(m, x)]))]

@unit("v_string_compare", "P10", "fiftyoneDegreesStringCompare", native="string_compare_bounded",
      trusted=["tolower as in the C locale for ASCII; characters above 127 are only said to differ from others"])
def _(u):
    # including the terminator makes a proper prefix the smaller string
    con = Contract("fiftyoneDegreesStringCompare",
        lambda c: cstring(c.vc.arr(c.old, B), c[0], la, "a") + cstring(c.vc.arr(c.old, B), c[1], lb, "b"),
        lambda c: spec_order(c, c.ret, If(la < lb, la, lb) + 1),
        loop=lambda c, sc: templates(c, sc, ((0, la), (1, lb))))
    return [(VC(prog("string.c"), [con]), con)]

@unit("v_string_comparelength", "P10", "fiftyoneDegreesStringCompareLength", native="string_comparelength_bounded",
      trusted=["tolower as in the C locale for ASCII; characters above 127 are only said to differ from others"])
def _(u):
    x = Int("x")
    con = Contract("fiftyoneDegreesStringCompareLength",
        lambda c: [("readable", And(c[0] > 0, c[1] > 0, c[0] + c[2] < 2**62, c[1] + c[2] < 2**62,
            ForAll([x], Implies(Or(And(c[0] <= x, x < c[0] + c[2]), And(c[1] <= x, x < c[1] + c[2])), ok0(x, 1)), patterns=[ok0(x, 1)])))],
        lambda c: spec_order(c, c.ret, c[2]),
        loop=lambda c, sc: templates(c, sc, ((0, c[2]), (1, c[2]))))
    return [(VC(prog("string.c"), [con]), con)]

@unit("v_string_substring", "P10", "fiftyoneDegreesStringSubString", native="string_substring_bounded",
      trusted=["tolower as in the C locale for ASCII; characters above 127 are only said to differ from others"])
def _(u):
    def match_at(m, c, i):
        return And(0 <= i, i + lb <= la, same(m, c[0] + i, c[1], lb))
    def post(c):
        m = c.vc.arr(c.old, B); i = Int("i"); r = c.ret
        return [("the result is an occurrence", Or(r == 0, match_at(m, c, r - c[0]))),
                ("there is none before it, or none at all", ForAll([i], Implies(And(0 <= i, Or(r == 0, i < r - c[0])), Not(match_at(m, c, i)))))]
    def loop(c, sc):
        m = lambda s: c.vc.arr(s, B)
        out = []
        i = Int("i")
        for n, v in sc.charptrs():
            for x, L in ((0, la), (1, lb)):
                out.append(("%s within argument %d" % (n, x), lambda s, v=v, x=x, L=L: And(c[x] <= v(s), v(s) <= c[x] + L)))
            out.append(("no occurrence before %s" % n, lambda s, v=v: ForAll([i], Implies(And(0 <= i, i < v(s) - c[0]), Not(match_at(m(s), c, i))))))
        ps = sc.charptrs()
        for n, v in ps:
            for n1, v1 in ps:
                for n2, v2 in ps:
                    if len({n, n1, n2}) == 3:
                        out.append(("%s-%s is %s" % (n1, n, n2), lambda s, v=v, v1=v1, v2=v2: v1(s) - v(s) == v2(s) - c[1]))
                        out.append(("%s matches up to %s" % (n, n2), lambda s, v=v, v2=v2: same(m(s), v(s), c[1], v2(s) - c[1])))
        for n, v in sc.ints():
            out.append(("%s is zero" % n, lambda s, v=v: v(s) == 0))
        return out
    con = Contract("fiftyoneDegreesStringSubString",
        lambda c: cstring(c.vc.arr(c.old, B), c[0], la, "a") + cstring(c.vc.arr(c.old, B), c[1], lb, "b") + [("not empty", lb > 0)], post, loop=loop)
    return [(VC(prog("string.c"), [con]), con)]
