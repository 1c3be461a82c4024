"""The linked list: invariant, operations, traversal."""
from contract import *
from c_sys import DIMMAX

class LL:
    """the list seen through its public fields"""
    def __init__(self, v):
        self.v = v
        self.n = v.links.len
        self.m = v.contents.len
    def node(self, i): return self.v.links.at(i)
    def alive(self, i): return self.node(i).alive.x
    def opt(self, o):
        p = o.pay("Some")
        return o.isv("Some"), (p.x if p is not None else -1)
    def next(self, i): return self.opt(self.node(i).next)
    def prev(self, i): return self.opt(self.node(i).prev)
    def head(self): return self.opt(self.v.head)
    def tail(self): return self.opt(self.v.tail)
    def cur(self, k): return self.opt(self.v.current.at(k))
    def live(self, i): return and_(le(0, i), lt(i, self.n), self.alive_safe(i))
    def alive_safe(self, i):
        if isinstance(self.n, int) and self.n == 0: return False
        return self.alive(i)

def at_most_one(l, i):
    """invariant at one entry"""
    if isinstance(l.n, int) and l.n == 0:
        return []
    ns, nx = l.next(i)
    ps, pv = l.prev(i)
    out = [("next-link points at a later live entry", implies(and_(l.live(i), ns), and_(lt(i, nx), l.live(nx)))),
           ("previous-link points at an earlier live entry", implies(and_(l.live(i), ps), and_(lt(pv, i), l.live(pv))))]
    nps, npv = l.prev(nx)
    pns, pnx = l.next(pv)
    out += [("previous-link inverts next-link", implies(and_(l.live(i), ns), and_(nps, eq(npv, i)))),
            ("next-link inverts previous-link", implies(and_(l.live(i), ps), and_(pns, eq(pnx, i))))]
    hs, h = l.head()
    ts, t = l.tail()
    out += [("nothing live before the head", implies(l.live(i), and_(hs, le(h, i)))),
            ("nothing live after the tail", implies(l.live(i), and_(ts, le(i, t)))),
            ("only the tail has no next-link", implies(and_(l.live(i), not_(ns)), eq(t, i))),
            ("only the head has no previous-link", implies(and_(l.live(i), not_(ps)), eq(h, i)))]
    return out

def pairwise(l, i, k):
    """no live entry is skipped by a link"""
    if isinstance(l.n, int) and l.n == 0:
        return []
    ns, nx = l.next(i)
    ps, pv = l.prev(k)
    return [("no live entry skipped by a next-link", implies(and_(l.live(i), l.live(k), lt(i, k)), and_(ns, le(nx, k)))),
            ("no live entry skipped by a previous-link", implies(and_(l.live(i), l.live(k), lt(i, k)), and_(ps, le(i, pv))))]

def ends(l):
    hs, h = l.head()
    ts, t = l.tail()
    out = [("links and contents have equal length", eq(l.n, l.m)),
           ("head is live", implies(hs, l.live(h))), ("tail is live", implies(ts, l.live(t)))]
    for k in range(3):
        s, x = l.cur(k)
        out.append(("cursor points at a live entry or nothing", implies(s, l.live(x))))
    return out

def facts(l, terms, pairs=True):
    """instances of the invariant"""
    out = [g for _, g in ends(l)]
    ts = {}
    for t in terms:
        ts[str(t)] = t
    ts = list(ts.values())
    for i in ts:
        out += [g for _, g in at_most_one(l, i)]
        if pairs:
            for k in ts:
                if k is not i:
                    out += [g for _, g in pairwise(l, i, k)]
    return [g for g in out if g is not True]

def around(l, terms, deep=1):
    out = list(terms)
    if isinstance(l.n, int) and l.n == 0:
        return out
    for t in terms:
        a, b = l.next(t)[1], l.prev(t)[1]
        out += [a, b]
        if deep > 1:
            out += [l.next(a)[1]]
    return out

def base_terms(l):
    return [l.head()[1], l.tail()[1]] + [l.cur(k)[1] for k in range(2)]

def start(c, l, extra=()):
    c.pre(le(l.n, DIMMAX))
    c.pre(*facts(l, base_terms(l) + list(extra), False))

def check_inv(o, c, l0, l1, hyps=(), extra=()):
    """the invariant holds afterwards"""
    hyps = list(hyps)
    he = hyps + (facts(l0, around(l0, list(extra) + base_terms(l0))) if l0 is not None else [])
    for lab, g in ends(l1):
        o.goal(lab, g, he)
    i, k = fresh_int("i"), fresh_int("k")
    h = hyps + (facts(l0, [i, k] + list(extra) + base_terms(l0)) if l0 is not None else [])
    for lab, g in at_most_one(l1, i):
        o.goal(lab, g, h)
    for lab, g in pairwise(l1, i, k):
        o.goal(lab, g, h)

def same_nodes(l0, l1, i):
    a, b = l0.node(i), l1.node(i)
    def so(x, y):
        (s, p), (t, q) = l0.opt(x), l1.opt(y)
        return and_(iff(s, t), implies(s, eq(p, q)))
    return and_(iff(a.alive.x, b.alive.x), so(a.next, b.next), so(a.prev, b.prev))

def same_cur(l0, l1, k):
    (s, p), (t, q) = l0.cur(k), l1.cur(k)
    return and_(iff(s, t), implies(s, eq(p, q)))

def same_ends(l0, l1):
    (s, p), (t, q) = l0.head(), l1.head()
    (u, x), (v, y) = l0.tail(), l1.tail()
    return and_(eq(l0.n, l1.n), eq(l0.m, l1.m), iff(s, t), implies(s, eq(p, q)), iff(u, v), implies(u, eq(x, y)))

def same_content(o, c, l0, l1, lab, hyps=(), skip=None):
    i, h = c.idx("ci", 0, l0.m)
    if skip is not None:
        h = h + [not_(eq(i, skip))]
    o.goal(lab, veq(l0.v.contents.at(i), l1.v.contents.at(i)), list(hyps) + h)

def veq(a, b):
    x, y = a.v, b.v
    if isinstance(x, F):
        return eq(x.v, y.v)
    if isinstance(x, Agg):
        return and_(*[veq(V(a.c, a.st, p), V(b.c, b.st, q)) for p, q in zip(x.fs, y.fs)])
    if isinstance(x, Enum):
        r = [eq(x.d, y.d)]
        for k in x.pl:
            if k in y.pl:
                r.append(implies(eq(x.d, k), and_(*[veq(V(a.c, a.st, p), V(b.c, b.st, q)) for p, q in zip(x.pl[k], y.pl[k])])))
        return and_(*r)
    if isinstance(x, Seq):
        j = fresh_int("cj")
        return and_(eq(x.len, y.len), implies(and_(le(0, j), lt(j, x.len)), veq(a.at(j), b.at(j))))
    return eq(x, y)

def unchanged_list(o, c, l0, l1, hyps=(), cursors=True, links=True):
    o.goal("length, head and tail unchanged", same_ends(l0, l1), hyps)
    if cursors:
        for k in range(3):
            o.goal("cursor %d unchanged" % k, same_cur(l0, l1, k), hyps)
    if links:
        i, h = c.idx("ni", 0, l0.n)
        o.goal("links unchanged", same_nodes(l0, l1, i), list(hyps) + h)
    same_content(o, c, l0, l1, "contents unchanged", hyps)

# --------------------------------------------------------------- C13
@contract("C13", "LinkedList::new", "list::new")
def _(c):
    c.load("list::new", [])
    for o in c.run():
        l = LL(o.ret)
        o.goal("empty", and_(eq(l.n, 0), eq(l.m, 0), not_(l.head()[0]), not_(l.tail()[0]), *[not_(l.cur(k)[0]) for k in range(3)]))

@contract("C13", "LinkedList::from", "list::from")
def _(c):
    (v,) = c.load("list::from", ["v"])
    c.pre(le(v.len, DIMMAX))
    for o in c.run():
        l = LL(o.ret)
        o.goal("as many entries as contents", and_(eq(l.n, v.len), eq(l.m, v.len)))
        check_inv(o, c, None, l)
        i, h = c.idx("i", 0, v.len)
        if not (isinstance(l.n, int) and l.n == 0):
            o.goal("every entry live with its own contents", and_(l.alive(i), eq(l.v.contents.at(i).x, v.at(i).x)), h)
        o.goal("no cursor set", and_(*[not_(l.cur(k)[0]) for k in range(3)]))

@contract("C13", "LinkedList::push", "list::push")
def _(c):
    v, x = c.load("list::push", ["l", "x"])
    l0 = LL(v)
    start(c, l0)
    for o in c.run():
        l1 = LL(o.now("l"))
        n = l0.n
        o.goal("one more entry", and_(eq(l1.n, add(n, 1)), eq(l1.m, add(n, 1))))
        o.goal("the new entry is live, last, and holds the contents", and_(l1.alive(n), l1.tail()[0], eq(l1.tail()[1], n), eq(l1.v.contents.at(n).x, x.x)))
        i, h = c.idx("i", 0, n)
        o.goal("other entries stay live or dead", iff(l1.alive(i), l0.alive(i)), h)
        same_content(o, c, l0, l1, "other contents unchanged")
        for k in range(3):
            o.goal("cursor unchanged", same_cur(l0, l1, k))
        check_inv(o, c, l0, l1)

@contract("C13", "LinkedList::del", "list::del", also=["C14"])
def _(c):
    v, x = c.load("list::del", ["l", "x"])
    l0 = LL(v)
    start(c, l0, [x.x])
    for o in c.run():
        l1 = LL(o.now("l"))
        o.goal("error exactly for dead or out-of-range entries", iff(o.err(), not_(l0.live(x.x))))
        o.goal("error code", implies(o.err(), o.code("InvalidArgumentInput")))
        unchanged_list(o, c, l0, l1, [o.err()])
        if o.okv() is None: continue
        i, h = c.idx("i", 0, l0.n)
        o.goal("exactly the entry dies", iff(l1.alive(i), and_(l0.alive(i), not_(eq(i, x.x)))), h + [o.ok()])
        o.goal("number of entries", and_(eq(l1.n, l0.n), eq(l1.m, l0.m)), [o.ok()])
        same_content(o, c, l0, l1, "contents unchanged", [o.ok()])
        check_inv(o, c, l0, l1, [o.ok()], [x.x])
        # a single traversal: what remained to be yielded, without the deleted entry
        k = fresh_int("k")
        hy = [o.ok()] + facts(l0, [k, x.x, l0.cur(0)[1]])
        (s0, p0), (s1, p1) = l0.cur(0), l1.cur(0)
        o.goal("what remains to be traversed loses exactly the deleted entry", implies(l1.live(k), iff(and_(s0, le(p0, k)), and_(s1, le(p1, k)))), hy)

@contract("C13", "LinkedList::connect_all", "list::connect_all")
def _(c):
    (v,) = c.load("list::connect_all", ["l"])
    l0 = LL(v)
    start(c, l0)
    for o in c.run():
        l1 = LL(o.now("l"))
        o.goal("succeeds", o.ok())
        o.goal("number of entries", and_(eq(l1.n, l0.n), eq(l1.m, l0.m)))
        i, h = c.idx("i", 0, l0.n)
        o.goal("every entry live", l1.alive(i), h)
        same_content(o, c, l0, l1, "contents unchanged")
        check_inv(o, c, l0, l1)

@contract("C13", "LinkedList<ContPassiveMergeAgent>::merge", "list::merge", also=["C12", "C15"])
def _(c):
    v, x, y = c.load("list::merge", ["l", "x", "y"])
    l0 = LL(v)
    start(c, l0, [x.x, y.x])
    a, b = v.contents.at(x.x), v.contents.at(y.x)
    c.pre(implies(l0.live(x.x), and_(ge(a.size.x, 1), le(a.size.x, DIMMAX))), implies(l0.live(y.x), and_(ge(b.size.x, 1), le(b.size.x, DIMMAX))))
    from c_agent import dcoef
    good = and_(l0.live(x.x), l0.live(y.x), not_(eq(x.x, y.x)))
    for o in c.run():
        l1 = LL(o.now("l"))
        o.goal("error exactly for the same, dead or out-of-range entries, or other movement", iff(o.err(), not_(and_(good, a.mtype.isv("Brownian")))))
        o.goal("error code", implies(and_(o.err(), not_(good)), o.code("InvalidArgumentInput")))
        unchanged_list(o, c, l0, l1, [o.err()])
        if o.okv() is None: continue
        ok = [o.ok()]
        i, h = c.idx("i", 0, l0.n)
        o.goal("exactly the absorbed entry dies", iff(l1.alive(i), and_(l0.alive(i), not_(eq(i, y.x)))), h + ok)
        q = l1.v.contents.at(x.x)
        o.goal("sizes add up", eq(q.size.x, add(a.size.x, b.size.x)), ok)
        o.goal("diffusion coefficient is size^(-alpha)", and_(q.mtype.isv("Brownian"), eq(q.mtype.pay("Brownian").x, dcoef(q.size.x, a.alpha.x))), ok)
        j, hj = c.idx("j", 0, a.pos.coordinate.len)
        o.goal("surviving agent otherwise unchanged", and_(eq(q.alpha.x, a.alpha.x), eq(q.ptl_radius.x, a.ptl_radius.x), eq(q.pos.coordinate.len, a.pos.coordinate.len), eq(q.pos.coordinate.at(j).x, a.pos.coordinate.at(j).x)), ok + hj)
        same_content(o, c, l0, l1, "other contents unchanged", ok, x.x)
        check_inv(o, c, l0, l1, ok, [x.x, y.x])
        pair_delete(o, c, l0, l1, y.x, ok)

# --------------------------------------------------------------- C14
@contract("C14", "LinkedList::into_iter", "list::into_iter", also=["C13"])
def _(c):
    (v,) = c.load("list::into_iter", ["l"])
    l0 = LL(v)
    start(c, l0)
    for o in c.run():
        l1 = LL(o.now("l"))
        unchanged_list(o, c, l0, l1, cursors=False)
        k = fresh_int("k")
        s, p = l1.cur(0)
        o.goal("every live entry remains to be traversed", implies(l1.live(k), and_(s, le(p, k))), facts(l0, [k]))
        check_inv(o, c, l0, l1)

FORMS1 = {"get": (None, ""), "get_mut": (None, ""), "enumerate": ("0", "1"), "enumerate_mut": ("0", "1"), "indicies": ("", None)}
for nm, (fi, fc) in FORMS1.items():
    def f(c, nm=nm, fi=fi, fc=fc):
        (v,) = c.load("list::" + nm, ["l"])
        l0 = LL(v)
        start(c, l0)
        s0, p0 = l0.cur(0)
        for o in c.run():
            l1 = LL(o.now("l"))
            r = o.ret
            y = r.isv("Some")
            o.goal("ends exactly when nothing remains", iff(y, s0))
            p = r.pay("Some")
            if p is not None:
                if fi is not None:
                    o.goal("index of the first remaining entry", eq((p if fi == "" else p.f(fi)).x, p0), [y])
                if fc is not None:
                    q = p if fc == "" else p.f(fc)
                    o.goal("contents of the first remaining entry", eq(V(c, o.st, q.v).x, l0.v.contents.at(p0).x), [y])
            k = fresh_int("k")
            s1, p1 = l1.cur(0)
            o.goal("exactly the yielded entry is taken from what remains", implies(l0.live(k), iff(and_(s1, le(p1, k)), and_(s0, lt(p0, k)))), facts(l0, [k, p0]))
            for k in (1, 2):
                o.goal("other cursors unchanged", same_cur(l0, l1, k))
            unchanged_list(o, c, l0, l1, cursors=False)
            check_inv(o, c, l0, l1)
    contract("C14", "LinkedList::" + nm, "list::" + nm, also=["C13"])(f)

# --------------------------------------------------------------- C15
def pair_ok(l):
    """the two cursors of a pair traversal are in order"""
    (s0, p0), (s1, p1) = l.cur(0), l.cur(1)
    return implies(and_(s0, s1), lt(p0, p1))

def rem(l, p, q):
    """the pair p<q remains to be yielded"""
    (s0, p0), (s1, p1) = l.cur(0), l.cur(1)
    return and_(s0, s1, or_(lt(p0, p), and_(eq(p0, p), le(p1, q))))

def pair_delete(o, c, l0, l1, y, hyps):
    """deleting y just after the pair (x,y) was yielded: l0 is the state after that
    step, so what remains there are the pairs beyond (x,y)"""
    x, p, q = fresh_int("x"), fresh_int("p"), fresh_int("q")
    beyond = lambda p, q: or_(lt(x, p), and_(eq(x, p), lt(y, q)))
    # the state of the cursors just after yielding (x,y)
    (s0, p0), (s1, p1) = l0.cur(0), l0.cur(1)
    nx, ny = l0.next(x), l0.next(y)
    ts, t = l0.tail()
    nn = l0.next(nx[1])
    last = eq(y, t)
    after = and_(l0.live(x), l0.live(y), lt(x, y),
                 implies(not_(last), and_(s0, eq(p0, x), s1, ny[0], eq(p1, ny[1]))),
                 implies(last, and_(s0, nx[0], eq(p0, nx[1]), iff(s1, nn[0]), implies(s1, eq(p1, nn[1])))))
    h = list(hyps) + [after] + facts(l0, around(l0, [x, y, p, q], 2))
    o.goal("pair traversal stays complete when the second entry goes", implies(and_(l1.live(p), l1.live(q), lt(p, q)), iff(rem(l1, p, q), beyond(p, q))), h)
    o.goal("pair traversal cursors stay in order when the second entry goes", pair_ok(l1), h)

@contract("C15", "LinkedList::into_double_iter", "list::into_double_iter", also=["C13"])
def _(c):
    (v,) = c.load("list::into_double_iter", ["l"])
    l0 = LL(v)
    start(c, l0)
    for o in c.run():
        l1 = LL(o.now("l"))
        unchanged_list(o, c, l0, l1, cursors=False)
        p, q = fresh_int("p"), fresh_int("q")
        h = facts(l0, [p, q, l0.head()[1]])
        o.goal("every pair of live entries remains to be yielded", implies(and_(l1.live(p), l1.live(q), lt(p, q)), rem(l1, p, q)), h)
        o.goal("cursors in order", pair_ok(l1))
        check_inv(o, c, l0, l1)

FORMS2 = {"get_double": (None, ("0", "1")), "enumerate_double": (("0", "2"), ("1", "3")), "indicies_double": (("0", "1"), None)}
for nm, (fi, fc) in FORMS2.items():
    def f(c, nm=nm, fi=fi, fc=fc):
        (v,) = c.load("list::" + nm, ["l"])
        l0 = LL(v)
        start(c, l0)
        c.pre(pair_ok(l0))
        (s0, p0), (s1, p1) = l0.cur(0), l0.cur(1)
        for o in c.run():
            l1 = LL(o.now("l"))
            r = o.ret
            y = r.isv("Some")
            o.goal("ends exactly when no pair remains", iff(y, and_(s0, s1)))
            t = r.pay("Some")
            if t is not None:
                for z in (0, 1):
                    pz = (p0, p1)[z]
                    if fi is not None:
                        o.goal("index of entry %d of the first remaining pair" % (z + 1), eq(t.f(fi[z]).x, pz), [y])
                    if fc is not None:
                        o.goal("contents of entry %d of the first remaining pair" % (z + 1), eq(V(c, o.st, t.f(fc[z]).v).x, l0.v.contents.at(pz).x), [y])
            p, q = fresh_int("p"), fresh_int("q")
            h = facts(l0, around(l0, [p, q, p0, p1], 2))
            o.goal("exactly the yielded pair is taken from what remains", implies(and_(l0.live(p), l0.live(q), lt(p, q)), iff(rem(l1, p, q), and_(rem(l0, p, q), not_(and_(eq(p, p0), eq(q, p1)))))), h)
            o.goal("cursors in order", pair_ok(l1), h)
            # the cursors just after a yielded pair, as the deletion contract assumes them
            nx, ny = l0.next(p0), l0.next(p1)
            nn = l0.next(nx[1])
            (u0, q0), (u1, q1) = l1.cur(0), l1.cur(1)
            last = eq(p1, l0.tail()[1])
            o.goal("cursors just after a pair", and_(implies(not_(last), and_(u0, eq(q0, p0), u1, ny[0], eq(q1, ny[1]))),
                   implies(last, and_(u0, nx[0], eq(q0, nx[1]), iff(u1, nn[0]), implies(u1, eq(q1, nn[1]))))), h + [y])
            o.goal("third cursor unchanged", same_cur(l0, l1, 2))
            unchanged_list(o, c, l0, l1, cursors=False)
            check_inv(o, c, l0, l1)
    contract("C15", "LinkedList::" + nm, "list::" + nm, also=["C13"])(f)

@contract("C15", "LinkedList::del during a pair traversal", "list::del")
def _(c):
    v, x = c.load("list::del", ["l", "x"])
    l0 = LL(v)
    start(c, l0, [x.x])
    for o in c.run():
        if o.okv() is None: continue
        pair_delete(o, c, l0, LL(o.now("l")), x.x, [o.ok()])
