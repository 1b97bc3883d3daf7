"""Red black trees of any size and shape: tree.c"""
from spec import *

NODE, TREE = "fiftyoneDegreesTreeNode", "fiftyoneDegreesTreeRoot"
# the nodes in the tree; the keys a node's subtree may have lie between these two; black nodes on each way down, itself not counted
# the key that counts for the order: the node's own, but while a deleted node stands in for its successor, the successor's
IN, LO, HI, BH, KEY = ("g", "intree"), ("g", "lo"), ("g", "hi"), ("g", "blackheight"), ("g", "orderkey")
BIG = 2**63 + 1
def P(): return prog("tree.c")
class V:
    """the tree at a state"""
    def __init__(self, vc, st, w):
        self.vc, self.st, self.w = vc, st, w
        self.root = w + offs(vc, TREE, "root"); self.empty = w + offs(vc, TREE, "empty")
    def f(self, name, a): return fld(self.vc, self.st, NODE, name, a)
    def left(self, a): return self.f("left", a)
    def right(self, a): return self.f("right", a)
    def parent(self, a): return self.f("parent", a)
    def key(self, a): return gmap(self.vc, self.st, KEY, a)
    def red(self, a): return self.f("colour", a) == 1
    def has(self, a): return gmap(self.vc, self.st, IN, a) == 1
    def lo(self, a): return gmap(self.vc, self.st, LO, a)
    def hi(self, a): return gmap(self.vc, self.st, HI, a)
    def bh(self, a): return gmap(self.vc, self.st, BH, a)
    def first(self): return self.left(self.root)
    def val(self, a): return If(a == self.empty, 0, self.bh(a) + If(self.red(a), 0, 1))
def roots(vc, st, w):
    t = V(vc, st, w)
    return [("the root", And(addr(w), region(w, size_of(vc, TREE)))),
            ("the root's own nodes", And(t.f("root", t.root) == w, t.f("root", t.empty) == w))]
def blank(vc, st, w):
    t = V(vc, st, w)
    return [("the empty node", And(t.left(t.empty) == t.empty, t.right(t.empty) == t.empty)),
            ("the colours of the root's own nodes", And(t.f("colour", t.empty) == 0, t.f("colour", t.root) == 0)),
            ("one tree below the root", t.right(t.root) == t.empty)]
def F2(v, body, *pats):
    return ForAll(v, body, patterns=[z3.MultiPattern(*pats)])
def nodes(vc, st, w, ok=True):
    t = V(vc, st, w); n = Int("tn")
    return [("nodes", FA([n], Implies(t.has(n), And(addr(n), n != t.root, n != t.empty, t.f("root", n) == w)), gmap(vc, st, IN, n)))] + \
        ([("memory of the nodes", FA([n], Implies(t.has(n), region(n, size_of(vc, NODE))), gmap(vc, st, IN, n)))] if ok else [])
def shape(vc, st, w):
    t = V(vc, st, w); n, m = Int("tn"), Int("tm"); f = t.first()
    K = lambda x: gmap(vc, st, IN, x)
    return [("left children", FA([n], Implies(And(t.has(n), t.left(n) != t.empty), (lambda l: And(t.has(l), t.parent(l) == n, t.lo(l) == t.lo(n), t.hi(l) == t.key(n)))(t.left(n))), t.left(n))),
            ("right children", FA([n], Implies(And(t.has(n), t.right(n) != t.empty), (lambda l: And(t.has(l), t.parent(l) == n, t.lo(l) == t.key(n), t.hi(l) == t.hi(n)))(t.right(n))), t.right(n))),
            ("the first node", Implies(f != t.empty, And(t.has(f), t.parent(f) == t.root, t.lo(f) == -BIG, t.hi(f) == BIG))),
            ("parents", FA([n], Implies(t.has(n), Or(And(t.parent(n) == t.root, f == n), And(t.has(t.parent(n)), Or(t.left(t.parent(n)) == n, t.right(t.parent(n)) == n)))), t.parent(n))),
            ("keys are between the bounds", FA([n], Implies(t.has(n), And(-BIG <= t.lo(n), t.lo(n) < t.key(n), t.key(n) < t.hi(n), t.hi(n) <= BIG)), K(n))),
            ("lower keys are on the left", F2([n, m], Implies(And(t.has(n), t.has(m), t.lo(n) < t.key(m), t.key(m) < t.key(n)), And(t.left(n) != t.empty, t.lo(n) <= t.lo(m), t.hi(m) <= t.key(n))), K(n), K(m))),
            ("higher keys are on the right", F2([n, m], Implies(And(t.has(n), t.has(m), t.key(n) < t.key(m), t.key(m) < t.hi(n)), And(t.right(n) != t.empty, t.key(n) <= t.lo(m), t.hi(m) <= t.hi(n))), K(n), K(m))),
            ("the bounds nest", And(F2([n, m], Implies(And(t.has(n), t.has(m), t.lo(n) == t.key(m)), t.key(n) < t.hi(m)), K(n), K(m)), F2([n, m], Implies(And(t.has(n), t.has(m), t.hi(n) == t.key(m)), t.lo(m) < t.key(n)), K(n), K(m)))),
            ("keys are distinct", F2([n, m], Implies(And(t.has(n), t.has(m), t.key(n) == t.key(m)), n == m), K(n), K(m))),
            ("nodes are below the first", FA([n], Implies(t.has(n), f != t.empty), K(n)))]
def colours(vc, st, w, but=None):
    t = V(vc, st, w); n = Int("tn")
    return [("colours", FA([n], Implies(t.has(n), And(t.f("colour", n) >= 0, t.f("colour", n) <= 1, t.bh(n) >= 0)), gmap(vc, st, IN, n))),
            ("a red node's parent is black", FA([n], Implies(And(t.has(n), t.red(n), *([n != but] if but is not None else [])), Not(t.red(t.parent(n)))), t.parent(n)))]
def heights(vc, st, w):
    t = V(vc, st, w); n = Int("tn")
    return [("as many black nodes on the left", FA([n], Implies(t.has(n), t.bh(n) == t.val(t.left(n))), t.left(n))),
            ("as many black nodes on the right", FA([n], Implies(t.has(n), t.bh(n) == t.val(t.right(n))), t.right(n)))]
def black_first(vc, st, w, but=None):
    t = V(vc, st, w)
    return [("the first node is black", Or(t.first() == t.empty, Not(t.red(t.first())), *([t.first() == but] if but is not None else [])))]
def keys(vc, st, w):
    t = V(vc, st, w); n = Int("tn")
    return [("ordered by their keys", FA([n], Implies(t.has(n), t.key(n) == t.f("key", n)), gmap(vc, st, IN, n)))]
def tree(vc, st, w, ok=True): return nodes(vc, st, w, ok) + blank(vc, st, w) + shape(vc, st, w)
def whole(vc, st, w, ok=True): return keys(vc, st, w) + tree(vc, st, w, ok) + colours(vc, st, w) + heights(vc, st, w) + black_first(vc, st, w)
def tag(vc): return vc.p.tu.records[vc.p.parse(NODE).id]["name"]
def kf(vc, f): return vc.p.key(NODE, f)

@unit("v_tree_find", "P07", "fiftyoneDegreesTreeFind", native="tree_insert_bounded")
def _(u):
    def pre(c): return roots(c.vc, c.old, c[0]) + whole(c.vc, c.old, c[0])
    def post(c):
        t = V(c.vc, c.old, c[0]); m = Int("fm")
        return [("a node of the tree with the key", Implies(c.ret != 0, And(t.has(c.ret), t.f("key", c.ret) == c[1]))),
                ("none only if the tree has none", Implies(c.ret == 0, FA([m], Implies(t.has(m), t.f("key", m) != c[1]), gmap(c.vc, c.old, IN, m))))]
    def loop(c, sc):
        t = V(c.vc, c.old, c[0]); m = Int("fm"); out = []
        for n, v in sc.ptrs(tag(c.vc)):
            out.append(("%s is in the tree" % n, lambda s, v=v: Or(v(s) == t.empty, t.has(v(s)))))
            out.append(("the key is below %s if anywhere" % n, lambda s, v=v: FA([m], Implies(And(t.has(m), t.key(m) == c[1]), And(v(s) != t.empty, t.lo(v(s)) < c[1], c[1] < t.hi(v(s)))), gmap(c.vc, c.old, IN, m))))
        return out
    con = Contract("fiftyoneDegreesTreeFind", pre, post, loop=loop)
    return [(VC(P(), [con]), con)]

@unit("v_tree_init", "P07", "fiftyoneDegreesTreeRootInit fiftyoneDegreesTreeNodeInit fiftyoneDegreesTreeNodeRemove", native="tree_insert_bounded")
def _(u):
    none = lambda vc, st: ForAll([Int("tn")], gmap(vc, st, IN, Int("tn")) == 0)
    def pre(c): return [("memory for it", obj(c.vc, TREE, c[0])), ("no nodes", none(c.vc, c.old))]
    con = Contract("fiftyoneDegreesTreeRootInit", pre, lambda c: roots(c.vc, c.st, c[0])[1:] + whole(c.vc, c.st, c[0], False), lambda c: rec_mods(c.vc, TREE, lambda a: a == c[0]))
    def own(c, w):
        t = V(c.vc, c.st, w)
        return [("it has no children and no parent", And(t.left(c[0]) == t.empty, t.right(c[0]) == t.empty, t.parent(c[0]) == t.empty, Not(t.red(c[0])))),
                ("it belongs to the root", t.f("root", c[0]) == w)]
    con2 = Contract("fiftyoneDegreesTreeNodeInit", lambda c: [("memory for it", obj(c.vc, NODE, c[0])), ("the root", obj(c.vc, TREE, c[1]))],
        lambda c: own(c, c[1]) + [("its key is 0", fld(c.vc, c.st, NODE, "key", c[0]) == 0)], lambda c: rec_mods(c.vc, NODE, lambda a: a == c[0]))
    w = lambda c: fld(c.vc, c.old, NODE, "root", c[0])
    con3 = Contract("fiftyoneDegreesTreeNodeRemove", lambda c: [("a node", obj(c.vc, NODE, c[0])), ("its root", obj(c.vc, TREE, w(c)))],
        lambda c: own(c, w(c)), lambda c: rec_mods(c.vc, NODE, lambda a: a == c[0], ("left", "right", "parent", "colour")))
    return [(VC(P(), [con]), con), (VC(P(), [con2]), con2), (VC(P(), [con3]), con3)]

WR = Int("treeroot")       # the root of the tree at hand, whatever it is
def W0(c): return WR
def its_root(c): return [("the node's root", fld(c.vc, c.old, NODE, "root", c[0]) == WR)]
def rotation(name, a, b):
    """turns node and its child on side b, which goes up"""
    W = W0
    def T(c): return V(c.vc, c.old, W(c))
    def child(c): return T(c).f(b, c[0])
    def pre(c):
        t = T(c)
        return its_root(c) + roots(c.vc, c.old, W(c)) + tree(c.vc, c.old, W(c)) + [("a node of the tree", t.has(c[0])), ("that has a child to go up", child(c) != t.empty)]
    def finish(c):
        vc, st, t = c.vc, c.st, T(c); x, y = c[0], child(c)
        gset(vc, st, LO, y, t.lo(x)); gset(vc, st, HI, y, t.hi(x))
        gset(vc, st, HI if a == "left" else LO, x, t.key(y))
        gset(vc, st, BH, y, t.bh(x)); gset(vc, st, BH, x, t.bh(y))
    def post(c):
        o, x, y = T(c), c[0], child(c); t = V(c.vc, c.st, W(c)); p = o.parent(x); in_ = o.f(a, y)
        return [("the child goes up", And(t.parent(y) == p, t.f(a, y) == x, t.parent(x) == y)),
                ("what was inside stays between them", And(t.f(b, x) == in_, Implies(in_ != o.empty, t.parent(in_) == x))),
                ("the parent has the child", And(t.left(p) == If(o.left(p) == x, y, o.left(p)), t.right(p) == If(o.left(p) == x, o.right(p), If(p == o.root, o.right(p), y)))),
                ("heights", And(t.bh(y) == o.bh(x), t.bh(x) == o.bh(y)))] + tree(c.vc, c.st, W(c), False)
    def mods(c):
        vc, o, x, y = c.vc, T(c), c[0], child(c)
        p, in_ = o.parent(x), o.f(a, y)
        return {kf(vc, a): lambda z: Or(z == y, And(z == p, o.f(a, p) == x)), kf(vc, b): lambda z: Or(z == x, And(z == p, o.f(b, p) == x)),
                kf(vc, "parent"): lambda z: Or(z == x, z == y, And(z == in_, in_ != o.empty)), LO: lambda z: Or(z == x, z == y), HI: lambda z: Or(z == x, z == y), BH: lambda z: Or(z == x, z == y)}
    con = Contract(name, pre, post, mods)
    con.finish = finish
    return con
def rotations(): return [rotation("rotateLeft", "left", "right"), rotation("rotateRight", "right", "left")]

@unit("v_tree_rotate", "P07", "rotateLeft rotateRight", native="tree_insert_bounded tree_delete_bounded")
def _(u):
    out = []
    for con in rotations():
        if P().body(con.name) is None: continue
        out.append((VC(P(), [con]), con))
    return out

def recount(pred=None):
    """ghost code at the end of an iteration: the black nodes below the nodes in hand"""
    def step(c, sc, s, h):
        vc = c.vc; t = V(vc, s, W0(c)); sets = []
        t0 = V(vc, sc.entry, WR); ps = sc.ptrs(tag(vc), True)
        if not hasattr(sc, "nodes"): sc.nodes = vc.valid_many([(sc.entry.path, Or(t0.has(v(sc.entry)), v(sc.entry) == t0.empty)) for n, v in ps], 4000)
        for (n, v), isnode in zip(ps, sc.nodes):
            if not isnode: continue
            a = v(s); l, r = t.val(t.left(a)), t.val(t.right(a))
            sets.append((a, If(t.has(a), If(l < r, l, r), t.bh(a))))
        for a, b in sets: gset(vc, s, BH, a, b)
    return step
def repair():
    name = "insertRepair"
    def almost(c, st, v, ok=True): return tree(c.vc, st, W0(c), ok) + colours(c.vc, st, W0(c), v) + heights(c.vc, st, W0(c)) + black_first(c.vc, st, W0(c), v)
    def pre(c):
        t = V(c.vc, c.old, W0(c))
        return its_root(c) + roots(c.vc, c.old, W0(c)) + almost(c, c.old, c[0]) + [("a red node of the tree", And(t.has(c[0]), t.red(c[0])))]
    def post(c): return tree(c.vc, c.st, W0(c), False) + colours(c.vc, c.st, W0(c)) + heights(c.vc, c.st, W0(c))
    def mods(c):
        t = V(c.vc, c.old, W0(c))
        return {**{kf(c.vc, f): (lambda a: Or(t.has(a), a == t.root) if f == "left" else t.has(a)) for f in ()},
                kf(c.vc, "left"): lambda a: Or(t.has(a), a == t.root), kf(c.vc, "right"): t.has, kf(c.vc, "parent"): t.has, kf(c.vc, "colour"): t.has, LO: t.has, HI: t.has, BH: t.has}
    def loop(c, sc):
        vc = c.vc; out = []
        for i, (l, f) in enumerate(tree(vc, c.old, W0(c), False) + heights(vc, c.old, W0(c))):
            out.append((l, lambda s, i=i: (tree(vc, s, W0(c), False) + heights(vc, s, W0(c)))[i][1]))
        for n, v in sc.ptrs(tag(vc), True):
            for i, (l, f) in enumerate(colours(vc, c.old, W0(c), c[0]) + black_first(vc, c.old, W0(c), c[0])):
                out.append(("%s but %s" % (l, n), lambda s, i=i, v=v: (colours(vc, s, W0(c), v(s)) + black_first(vc, s, W0(c), v(s)))[i][1]))
            out.append(("%s is a red node" % n, lambda s, v=v: (lambda t: And(t.has(v(s)), t.red(v(s))))(V(vc, s, W0(c)))))
        return out
    con = Contract(name, pre, post, mods, loop=loop)
    con.step = recount(); con.keepall = con.forget = True
    return con

@unit("v_tree_insert_repair", "P07", "insertRepair", native="tree_insert_bounded", timeout=450, jobs=6)
def _(u):
    con = repair()
    if P().body(con.name) is None: return []
    vc = VC(P(), [con] + rotations()); vc.lean = True
    return [(vc, con)]

@unit("v_tree_insert", "P07", "fiftyoneDegreesTreeInsert", native="tree_insert_bounded", timeout=450)
def _(u):
    name = "fiftyoneDegreesTreeInsert"
    if P().body("insertRepair") is None: raise Unsupported("no repair of its own")
    def key(c): return fld(c.vc, c.old, NODE, "key", c[0])
    def pre(c):
        t = V(c.vc, c.old, WR); m = Int("im")
        return its_root(c) + roots(c.vc, c.old, WR) + whole(c.vc, c.old, WR) + [("a node", obj(c.vc, NODE, c[0])), ("that is not in the tree", And(Not(t.has(c[0])), c[0] != t.root, c[0] != t.empty)),
            ("its key", And(-BIG < key(c), key(c) < BIG)), ("with a key that is not in the tree", FA([m], Implies(t.has(m), t.key(m) != key(c)), gmap(c.vc, c.old, IN, m)))]
    def post(c):
        t = V(c.vc, c.st, WR); m = Int("im")
        return [("the node is in the tree", t.has(c[0])), ("with the others and no more", FA([m], Or(m == c[0], gmap(c.vc, c.st, IN, m) == gmap(c.vc, c.old, IN, m)), gmap(c.vc, c.st, IN, m)))] + whole(c.vc, c.st, WR, False)
    def mods(c):
        t = V(c.vc, c.old, WR); own = lambda a: Or(t.has(a), a == c[0])
        return {kf(c.vc, "left"): lambda a: Or(own(a), a == t.root), **{kf(c.vc, f): own for f in ("right", "parent", "colour")}, LO: own, HI: own, BH: own, KEY: lambda a: a == c[0], IN: lambda a: a == c[0]}
    def loop(c, sc):
        vc = c.vc; t = V(vc, c.old, WR); n = Int("wn"); k = key(c); out = []
        ps = sc.ptrs(tag(vc), True)
        for a, va in ps:
            out.append(("%s is in the tree or nowhere" % a, lambda s, v=va: Or(v(s) == t.empty, t.has(v(s)))))
            out.append(("%s is in the tree or its root" % a, lambda s, v=va: Or(v(s) == t.root, t.has(v(s)))))
            out.append(("the place is below %s" % a, lambda s, v=va: Implies(And(v(s) != t.root, v(s) != t.empty), And(t.lo(v(s)) < k, k < t.hi(v(s))))))
            for b, vb in ps:
                if a == b: continue
                def slot(s, va=va, vb=vb):
                    cur, par = va(s), vb(s)
                    return cur == If(par == t.root, t.first(), If(k < t.key(par), t.left(par), t.right(par)))
                def passed(s, va=va, vb=vb):
                    cur, par = va(s), vb(s)
                    return FA([n], Implies(And(t.has(n), t.lo(n) < k, k < t.hi(n)), Or(n == par, And(cur != t.empty, t.lo(cur) < t.key(n), t.key(n) < t.hi(cur)),
                        And(par != t.root, k < t.key(n), t.left(n) != t.empty, t.lo(n) <= t.lo(par), t.hi(par) <= t.key(n)), And(par != t.root, k > t.key(n), t.right(n) != t.empty, t.key(n) <= t.lo(par), t.hi(par) <= t.hi(n)))), gmap(vc, c.old, IN, n))
                out.append(("nodes that the key bounds are below %s" % a, lambda s, va=va: FA([n], Implies(And(t.has(n), Or(t.lo(n) == k, t.hi(n) == k)), And(va(s) != t.empty, t.lo(va(s)) < t.key(n), t.key(n) < t.hi(va(s)))), gmap(vc, c.old, IN, n))))
                out.append(("%s is where the key goes below %s" % (a, b), slot))
                out.append(("nodes off the way from %s to %s" % (b, a), passed))
        return out
    rep = repair()
    con = Contract(name, pre, post, mods, loop=loop)
    vc = VC(P(), [con, rep])
    def placed(vc, st, vs, e, fv):
        """ghost code before the repair: the new node is in the tree, with the bounds of its place"""
        x = vs[0]; t = V(vc, st, WR); p = t.parent(x)
        lo, hi, lp, hp, kp, left = t.lo(x), t.hi(x), t.lo(p), t.hi(p), t.key(p), t.left(p) == x
        gset(vc, st, IN, x, 1); gset(vc, st, BH, x, 0); gset(vc, st, KEY, x, t.f("key", x))
        gset(vc, st, LO, x, If(p == t.root, IntVal(-BIG), If(left, lp, kp))); gset(vc, st, HI, x, If(p == t.root, IntVal(BIG), If(left, kp, hp)))
        return vc.call_contract(rep, vs, st, e)
    vc.contracts.pop("insertRepair"); vc.builtins["insertRepair"] = placed
    return [(vc, con)]

def delete_repair():
    """one black node is missing on the way to the node"""
    def state(c, st, x, ok=True):
        vc = c.vc; t = V(vc, st, WR); n = Int("tn"); p = t.parent(x)
        lack = lambda n, ch: t.val(ch) + If(And(ch == x, n == p), 1, 0)
        return tree(vc, st, WR, ok) + [
            ("the node is below its parent", And(Or(t.has(x), x == t.empty), Or(p == t.root, t.has(p)), Or(t.left(p) == x, And(p != t.root, t.right(p) == x)))),
            ("a sibling", Implies(p != t.root, t.left(p) != t.right(p))),
            ("colours", FA([n], Implies(t.has(n), And(t.f("colour", n) >= 0, t.f("colour", n) <= 1, t.bh(n) >= 0)), gmap(vc, st, IN, n))),
            ("a red node's parent is black, or one of them is the node", FA([n], Implies(And(t.has(n), t.red(n), n != x, t.parent(n) != x), Not(t.red(t.parent(n)))), t.parent(n))),
            ("as many black nodes on the left, with the one missing", FA([n], Implies(t.has(n), t.bh(n) == lack(n, t.left(n))), t.left(n))),
            ("as many black nodes on the right, with the one missing", FA([n], Implies(t.has(n), t.bh(n) == lack(n, t.right(n))), t.right(n))),
            ("the first node is black or the node", Or(t.first() == t.empty, Not(t.red(t.first())), t.first() == x))]
    def pre(c): return its_root(c) + roots(c.vc, c.old, WR) + state(c, c.old, c[0])
    def post(c): return tree(c.vc, c.st, WR, False) + colours(c.vc, c.st, WR) + heights(c.vc, c.st, WR) + black_first(c.vc, c.st, WR)
    def mods(c):
        t = V(c.vc, c.old, WR)
        return {kf(c.vc, "left"): lambda a: Or(t.has(a), a == t.root), kf(c.vc, "right"): t.has, kf(c.vc, "parent"): t.has, kf(c.vc, "colour"): lambda a: Or(t.has(a), a == t.empty), LO: t.has, HI: t.has, BH: t.has}
    def loop(c, sc):
        out = []
        for n, v in sc.ptrs(tag(c.vc), True):
            for i, (l, f) in enumerate(state(c, c.old, c[0], False)):
                out.append((l + ": " + n, lambda s, i=i, v=v: state(c, s, v(s), False)[i][1]))
        return out
    con = Contract("deleteRepair", pre, post, mods, loop=loop)
    con.step = recount(); con.keepall = con.forget = True
    return con

@unit("v_tree_delete_repair", "P07", "deleteRepair", native="tree_delete_bounded", timeout=450, jobs=6)
def _(u):
    con = delete_repair()
    if P().body(con.name) is None: return []
    vc = VC(P(), [con] + rotations()); vc.lean = True
    return [(vc, con)]

def succ():
    def pre(c):
        t = V(c.vc, c.old, WR)
        return its_root(c) + roots(c.vc, c.old, WR) + tree(c.vc, c.old, WR) + [("a node of the tree with a node on its right", And(t.has(c[0]), t.right(c[0]) != t.empty))]
    def is_it(t, r, x): return And(t.has(r), r != x, t.lo(r) == t.key(x), t.key(x) < t.key(r), t.key(r) < t.hi(x), t.hi(r) <= t.hi(x))
    def post(c):
        t = V(c.vc, c.old, WR)
        return [("the first node after it", And(is_it(t, c.ret, c[0]), t.left(c.ret) == t.empty))]
    def loop(c, sc):
        t = V(c.vc, c.old, WR)
        return [("%s is after the node" % n, lambda s, v=v: is_it(t, v(s), c[0])) for n, v in sc.ptrs(tag(c.vc), True)]
    return Contract("successor", pre, post, loop=loop)
@unit("v_tree_successor", "P07", "successor", native="tree_delete_bounded")
def _(u):
    if P().body("successor") is None: return []
    con = succ()
    return [(VC(P(), [con]), con)]
