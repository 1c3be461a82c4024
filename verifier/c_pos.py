"""Positions and bulk targets."""
from contract import *
from c_sys import coords, DIMMAX

def pre_len(c, *ps):
    for p in ps:
        c.pre(le(p.coordinate.len, DIMMAX))

def dist2(a, b, n):
    return sum_range(lambda i: mul(R(sub(a(i), b(i))), R(sub(a(i), b(i)))), 0, n)

def in_range(c, t, f, lo, hi):
    """integer arithmetic stays in the type's range in every coordinate"""
    if t == "f":
        return
    m = fresh_int("m")
    v = f(m)
    c.pre(QFact(lo, hi, m, and_(le(-(1 << 31), v), le(v, (1 << 31) - 1))))

OPS = {"add": add, "sub": sub}
for t in ("f", "i"):
    T = "Position<%s>" % {"f": "f64", "i": "i32"}[t]
    for op in ("add", "sub"):
        for form, nm in (("", "&a %s &b"), ("_mut", "&mut a %s &mut b")):
            def f(c, t=t, op=op, form=form):
                a, b = c.load("pos.%s.%s%s".replace(".", "::") % (t, op, form), ["a", "b"])
                pre_len(c, a, b)
                x, y, n = coords(a), coords(b), a.coordinate.len
                in_range(c, t, lambda i: OPS[op](x(i), y(i)), 0, n)
                same_dim = eq(n, b.coordinate.len)
                outs, pans = c.run_panics()
                for o in pans:
                    c.goal("panics only for different dimensions", not_(same_dim), o.st.pc)
                if not pans:
                    c.goal("different dimensions panic", same_dim, c.st.pc)
                for o in outs:
                    o.goal("different dimensions panic", same_dim)
                    r = o.ret
                    i, h = c.idx("i", 0, n)
                    o.goal("dimension", eq(r.coordinate.len, n))
                    o.goal("coordinate", eq(r.coordinate.at(i).x, OPS[op](x(i), y(i))), h)
                    o.goal("operands unchanged", and_(eq(coords(o.now("a"))(i), x(i)), eq(coords(o.now("b"))(i), y(i)), eq(o.now("a").coordinate.len, n), eq(o.now("b").coordinate.len, n)), h)
                c.reach += len(outs)
            contract("C07", T + "::" + op + form, "pos::%s::%s%s" % (t, op, form))(f)
        def f(c, t=t, op=op):
            a, b = c.load("pos::%s::mut_%s" % (t, op), ["a", "b"])
            pre_len(c, a, b)
            x, y, n = coords(a), coords(b), a.coordinate.len
            in_range(c, t, lambda i: OPS[op](x(i), y(i)), 0, n)
            same_dim = eq(n, b.coordinate.len)
            outs, pans = c.run_panics()
            for o in pans:
                c.goal("panics only for different dimensions", not_(same_dim), o.st.pc)
            for o in outs:
                o.goal("different dimensions panic", same_dim)
                q = o.now("a")
                i, h = c.idx("i", 0, n)
                o.goal("dimension", eq(q.coordinate.len, n))
                o.goal("coordinate", eq(coords(q)(i), OPS[op](x(i), y(i))), h)
                o.goal("other operand unchanged", and_(eq(coords(o.now("b"))(i), y(i)), eq(o.now("b").coordinate.len, n)), h)
            c.reach += len(outs)
        contract("C07", T + "::mut_" + op, "pos::%s::mut_%s" % (t, op))(f)
    def f(c, t=t):
        a, s = c.load("pos::%s::scalar_mul" % t, ["a", "s"])
        pre_len(c, a)
        x, n = coords(a), a.coordinate.len
        in_range(c, t, lambda i: mul(x(i), s.x), 0, n)
        for o in c.run():
            i, h = c.idx("i", 0, n)
            o.goal("dimension", eq(o.ret.coordinate.len, n))
            o.goal("coordinate", eq(coords(o.ret)(i), mul(x(i), s.x)), h)
            o.goal("operand unchanged", and_(eq(coords(o.now("a"))(i), x(i)), eq(o.now("a").coordinate.len, n)), h)
    contract("C07", T + "::scalar_mul", "pos::%s::scalar_mul" % t)(f)
    def f(c, t=t):
        a, s = c.load("pos::%s::mut_scalar_mul" % t, ["a", "s"])
        pre_len(c, a)
        x, n = coords(a), a.coordinate.len
        in_range(c, t, lambda i: mul(x(i), s.x), 0, n)
        for o in c.run():
            i, h = c.idx("i", 0, n)
            q = o.now("a")
            o.goal("dimension", eq(q.coordinate.len, n))
            o.goal("coordinate", eq(coords(q)(i), mul(x(i), s.x)), h)
    contract("C07", T + "::mut_scalar_mul", "pos::%s::mut_scalar_mul" % t)(f)
    def f(c, t=t):
        (a,) = c.load("pos::%s::norm" % t, ["a"])
        x, n = coords(a), a.coordinate.len
        for o in c.run():
            o.goal("square root of the sum of squares", eq(o.ret.x, rsqrt(sum_range(lambda i: mul(R(x(i)), R(x(i))), 0, n))))
    contract("C07", T + "::norm", "pos::%s::norm" % t)(f)
    def f(c, t=t):
        a, b = c.load("pos::%s::distance" % t, ["a", "b"])
        x, y, n = coords(a), coords(b), a.coordinate.len
        for o in c.run():
            o.goal("error exactly for different dimensions", iff(o.err(), not_(eq(n, b.coordinate.len))))
            o.goal("error code", implies(o.err(), o.code("InvalidDimension")))
            if o.okv() is not None:
                o.goal("Euclidean distance", eq(o.okv().x, rsqrt(dist2(x, y, n))), [o.ok()])
    contract("C07", T + "::distance", "pos::%s::distance" % t)(f)
    def f(c, t=t):
        (a,) = c.load("pos::%s::clear" % t, ["a"])
        n = a.coordinate.len
        for o in c.run():
            i, h = c.idx("i", 0, n)
            o.goal("dimension", eq(o.now("a").coordinate.len, n))
            o.goal("all coordinates zero", eq(coords(o.now("a"))(i), Fraction(0) if t == "f" else 0), h)
    contract("C07", T + "::clear", "pos::%s::clear" % t)(f)

@contract("C07", "Position<f64>::inner_product", "pos::inner_product")
def _(c):
    a, b = c.load("pos::inner_product", ["a", "b"])
    x, y, n = coords(a), coords(b), a.coordinate.len
    for o in c.run():
        o.goal("error exactly for different dimensions", iff(o.err(), not_(eq(n, b.coordinate.len))))
        o.goal("error code", implies(o.err(), o.code("InvalidDimension")))
        if o.okv() is not None:
            o.goal("sum of products", eq(o.okv().x, sum_range(lambda i: mul(x(i), y(i)), 0, n)), [o.ok()])

def bulk(c, t, p, o):
    n = p.coordinate.len
    x, y = coords(V(c, c.pre_st, t.target_pos.v)), coords(p)
    return rsqrt(dist2(x, y, n))

@contract("C06", "ContBulkTarget::check_find", "pos::bulk_check_find")
def _(c):
    t, p = c.load("pos::bulk_check_find", ["t", "p"])
    n = p.coordinate.len
    tp = t.target_pos
    for o in c.run():
        o.goal("error exactly for different dimensions", iff(o.err(), not_(eq(n, tp.coordinate.len))))
        o.goal("error code", implies(o.err(), o.code("InvalidDimension")))
        i, h = c.idx("i", 0, n)
        o.goal("operands unchanged", and_(eq(coords(o.now("p"))(i), coords(p)(i)), eq(o.now("t").target_size.x, t.target_size.x), eq(coords(o.now("t").target_pos)(i), coords(tp)(i))), h)
        if o.okv() is not None:
            o.goal("found exactly when closer than the radius", iff(o.okv().x, lt(rsqrt(dist2(coords(tp), coords(p), n)), t.target_size.x)), [o.ok()])

@contract("C06", "ContBulkTarget::distance", "pos::bulk_distance")
def _(c):
    t, p = c.load("pos::bulk_distance", ["t", "p"])
    n = p.coordinate.len
    tp = t.target_pos
    for o in c.run():
        o.goal("error exactly for different dimensions", iff(o.err(), not_(eq(n, tp.coordinate.len))))
        o.goal("error code", implies(o.err(), o.code("InvalidDimension")))
        if o.okv() is not None:
            o.goal("Euclidean distance", eq(o.okv().x, rsqrt(dist2(coords(tp), coords(p), n))), [o.ok()])
