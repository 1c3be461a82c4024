"""Time iterators: schedules, limits, time-difference view."""
from contract import *
from c_misc import fgt, fsame, Z0
from sym import *

FMAX = Fraction(2 ** 1024 - 2 ** 971)

def fr(x):
    """the rational value of a decimal literal of f64"""
    return Fraction(float(x))

SMALL = {"constant": fr(1e-10), "exponential": fr(1e-15)}
DTMIN = fr(1e-15)

def fge(a, q):
    return fle(F(q), a)

def limit(kind, tmax):
    """the limit a configured value stands for"""
    return fite(flt(tmax, F(SMALL[kind])), F(FMAX), tmax)

def sched(s):
    return s.titype.pay("Exponential", 0).v, s.titype.pay("Exponential", 1).v, s.titype.pay("Exponential", 2).x

def same_titype(a, b):
    return and_(eq(a.v.d, b.v.d),
                implies(a.isv("Constant"), fsame(a.pay("Constant").v, b.pay("Constant").v)),
                implies(a.isv("Exponential"), and_(fsame(a.pay("Exponential", 0).v, b.pay("Exponential", 0).v), fsame(a.pay("Exponential", 1).v, b.pay("Exponential", 1).v), eq(a.pay("Exponential", 2).x, b.pay("Exponential", 2).x))))

def same_state(kind, a, b, skip=()):
    gs = [same_titype(a.titype, b.titype)] + [fsame(a.f(n).v, b.f(n).v) for n in ("current", "dt", "tmax") if n not in skip]
    if kind == "exponential":
        gs += [fsame(a.inc.v, b.inc.v)] if "inc" not in skip else []
        gs += [eq(a.count.x, b.count.x)] if "count" not in skip else []
    return and_(*gs)

def inv(kind, s):
    """what construction establishes and every operation keeps"""
    if kind == "constant":
        return [s.titype.isv("Constant"), fsame(s.titype.pay("Constant").v, s.dt.v), fge(s.dt.v, DTMIN), fge(s.current.v, Z0), fge(s.tmax.v, Z0)]
    lo, hi, n = sched(s)
    return [s.titype.isv("Exponential"), fge(lo, DTMIN), fle(lo, s.dt.v), fle(s.dt.v, hi), fge(s.current.v, Z0), fge(s.tmax.v, Z0),
            fgt(s.inc.v, Fraction(1)), ge(n, 1), ge(s.count.x, 0), or_(le(s.count.x, n), not_(flt(s.dt.v, hi)))]

def start(kind, s):
    """the state a schedule starts from"""
    g = [feq(s.current.v, F(Z0))]
    if kind == "exponential":
        g += [fsame(s.dt.v, sched(s)[0]), eq(s.count.x, 0)]
    return and_(*g)

CAP = 1 << 60

# --------------------------------------------------------------- construction and limits
@contract("C16", "ConstStep::new", "time::const_new", specials=True)
def _(c):
    (d,) = c.load("time::const_new", ["d"])
    for o in c.run():
        o.goal("rejects exactly steps below the smallest, zero, negative and NaN", iff(o.err(), not_(fge(d.v, DTMIN))))
        o.goal("error code", implies(o.err(), o.code("InvalidArgumentInput")))
        s = o.okv()
        if s is None: continue
        o.goal("starts at zero with the given step", and_(start("constant", s), fsame(s.dt.v, d.v)), [o.ok()])
        o.goal("unlimited", fsame(s.tmax.v, F(FMAX)), [o.ok()])
        o.goal("invariant", and_(*inv("constant", s)), [o.ok()])

@contract("C17", "ExponentialStep::new", "time::exp_new", specials=True, also=["C16"])
def _(c):
    a, b, n = c.load("time::exp_new", ["a", "b", "n"])
    good = and_(fge(a.v, DTMIN), fle(a.v, b.v), ge(n.x, 1))
    for o in c.run():
        o.goal("rejects exactly invalid ranges and zero lengths", iff(o.err(), not_(good)))
        o.goal("error code", implies(o.err(), o.code("InvalidArgumentInput")))
        s = o.okv()
        if s is None: continue
        lo, hi, m = sched(s)
        h = [o.ok()]
        o.goal("starts at zero with the minimal step and no steps counted", start("exponential", s), h)
        o.goal("configuration", and_(s.titype.isv("Exponential"), fsame(lo, a.v), fsame(hi, b.v), eq(m, n.x)), h)
        o.goal("unlimited", fsame(s.tmax.v, F(FMAX)), h)
        o.goal("increase ratio greater than one", fgt(s.inc.v, Fraction(1)), h)
        o.goal("invariant", and_(*inv("exponential", s)), h)

for kind, ctor in (("constant", "ConstStep"), ("exponential", "ExponentialStep")):
    def f(c, kind=kind):
        (a,) = c.load("time::%s::convert_from" % kind, ["a"])
        if kind == "constant":
            good = and_(fge(a.dt.v, DTMIN), fge(a.tmax.v, Z0))
        else:
            good = and_(fge(a.dt_min.v, DTMIN), fle(a.dt_min.v, a.dt_max.v), ge(a.length.x, 10), fge(a.tmax.v, Z0))
        outs, pans = c.run_panics()
        for o in pans:
            c.goal("panics only for invalid arguments", not_(good), o.st.pc)
        for o in outs:
            s = o.ret
            o.goal("invalid arguments panic", good)
            o.goal("starts at zero", start(kind, s))
            o.goal("limit taken exactly, tiny limits unlimited", fsame(s.tmax.v, limit(kind, a.tmax.v)))
            if kind == "constant":
                o.goal("the given step", fsame(s.dt.v, a.dt.v))
            else:
                lo, hi, m = sched(s)
                o.goal("configuration", and_(s.titype.isv("Exponential"), fsame(lo, a.dt_min.v), fsame(hi, a.dt_max.v), eq(m, a.length.x)))
            o.goal("invariant", and_(*inv(kind, s)))
        c.reach += len(outs)
    contract("C16", ctor + "::convert_from", "time::%s::convert_from" % kind, specials=True, also=["C17"] if kind == "exponential" else [])(f)
    def f(c, kind=kind):
        s, t = c.load("time::%s::set_tmax" % kind, ["s", "t"])
        c.pre(*inv(kind, s))
        for o in c.run():
            o.goal("rejects exactly negative and NaN limits", iff(o.err(), not_(fge(t.v, Z0))))
            o.goal("error code", implies(o.err(), o.code("InvalidArgumentInput")))
            q = o.now("s")
            o.goal("nothing changes on error", same_state(kind, q, s), [o.err()])
            o.goal("only the limit changes", same_state(kind, q, s, ("tmax",)))
            o.goal("limit taken exactly, tiny limits unlimited", fsame(q.tmax.v, limit(kind, t.v)), [o.ok()])
    contract("C16", ctor + "::set_tmax", "time::%s::set_tmax" % kind, specials=True)(f)
    def f(c, kind=kind):
        (s,) = c.load("time::%s::renew" % kind, ["s"])
        c.pre(*inv(kind, s))
        for o in c.run():
            q = o.now("s")
            o.goal("back to the start", start(kind, q))
            o.goal("limit and configuration untouched", same_state(kind, q, s, ("current", "count") + (("dt",) if kind == "exponential" else ())))
            o.goal("invariant", and_(*inv(kind, q)))
    contract("C16", ctor + "::renew", "time::%s::renew" % kind, specials=True, also=["C17"] if kind == "exponential" else [])(f)
    def f(c, kind=kind):
        (s,) = c.load("time::%s::next" % kind, ["s"])
        c.pre(*inv(kind, s))
        if kind == "exponential":
            c.pre(le(s.count.x, CAP))
        for o in c.run():
            q, r = o.now("s"), o.ret
            y = r.isv("Some")
            o.goal("yields exactly while the time does not exceed the limit", iff(y, fle(s.current.v, s.tmax.v)))
            o.goal("limit and configuration untouched", same_state(kind, q, s, ("current", "dt", "count")))
            o.goal("stays ended", fsame(q.current.v, s.current.v), [not_(y)])
            if r.pay("Some") is not None:
                o.goal("yields the current time", fsame(r.pay("Some").v, s.current.v), [y])
                o.goal("advances by the step", fsame(q.current.v, fadd(s.current.v, q.dt.v)), [y])
                o.goal("by a positive step", fgt(q.dt.v, Z0), [y])
            o.goal("invariant", and_(*inv(kind, q)))
    contract("C16", ctor + "::next", "time::%s::next" % kind, specials=True)(f)
    def f(c, kind=kind):
        (s,) = c.load("time::%s::current_time" % kind, ["s"])
        for o in c.run():
            o.goal("the current time", fsame(o.ret.v, s.current.v))
    contract("C16", ctor + "::current_time", "time::%s::current_time" % kind, specials=True)(f)
    def f(c, kind=kind):
        (s,) = c.load("time::%s::dt" % kind, ["s"])
        for o in c.run():
            o.goal("the current step", fsame(o.ret.v, s.dt.v))
    contract("C18", ctor + "::dt", "time::%s::dt" % kind, specials=True)(f)
    # ---- C18
    def f(c, kind=kind):
        (s,) = c.load("time::%s::into_diff" % kind, ["s"])
        for o in c.run():
            o.goal("starts from the present state", same_state(kind, o.ret.timeiter, s))
            o.goal("original unchanged", same_state(kind, o.now("s"), s))
    contract("C18", ctor + "::into_diff", "time::%s::into_diff" % kind, specials=True)(f)
    def f(c, kind=kind):
        (s,) = c.load("time::%s::diff_next" % kind, ["s"])
        t = s.timeiter
        c.pre(*inv(kind, t))
        if kind == "exponential":
            c.pre(le(t.count.x, CAP))
        for o in c.run():
            # the original iterator, from the same state
            st = o.st.copy()
            orig = c.e.alloc(st, t.v)
            for w in c.e.exec_fn(st, c.p.entries["vharness::time::%s::next" % kind], [orig]):
                if w.kind != "ret":
                    c.goal("original does not panic", False, w.st.pc); continue
                ow = Out(c, w)
                q = V(c, w.st, orig)
                ry, rx = ow.ret, o.ret
                y = rx.isv("Some")
                ow.goal("ends when the original ends", iff(y, ry.isv("Some")))
                ow.goal("view advances like the original", same_state(kind, V(c, o.st, c.argv["s"]).timeiter, q))
                if rx.pay("Some") is None or ry.pay("Some") is None: continue
                tm, dd = rx.pay("Some").f("0").v, rx.pay("Some").f("1").v
                ow.goal("the original's time", fsame(tm, ry.pay("Some").v), [y])
                # what the original yields next is later by exactly the paired step
                s2 = w.st.copy()
                s2.assume(y)
                for z in c.e.exec_fn(s2, c.p.entries["vharness::time::%s::next" % kind], [orig]):
                    if z.kind != "ret":
                        c.goal("original does not panic later", False, z.st.pc); continue
                    oz = Out(c, z)
                    if oz.ret.pay("Some") is not None:
                        oz.goal("paired with the step to the next time", fsame(oz.ret.pay("Some").v, fadd(tm, dd)), [oz.ret.isv("Some")])
    contract("C18", "TimeDiffIterator<%s>::next" % ctor, "time::%s::diff_next" % kind, specials=True)(f)

# --------------------------------------------------------------- C17
@contract("C17", "ExponentialStep::next", "time::exponential::next", specials=True)
def _(c):
    (s,) = c.load("time::exponential::next", ["s"])
    c.pre(*inv("exponential", s), le(s.count.x, CAP))
    lo, hi, n = sched(s)
    full = and_(eq(s.count.x, n), flt(s.dt.v, hi))
    up = fmul(s.dt.v, s.inc.v)
    want = fite(full, fite(flt(hi, up), hi, up), s.dt.v)
    for o in c.run():
        q = o.now("s")
        y = o.ret.isv("Some")
        o.goal("step multiplied after exactly the configured number of steps, capped at the maximum", fsame(q.dt.v, want), [y])
        o.goal("steps counted from the last increase", eq(q.count.x, ite(full, 1, add(s.count.x, 1))), [y])
        o.goal("step within the configured range and never smaller", and_(fle(lo, q.dt.v), fle(q.dt.v, hi), fle(s.dt.v, q.dt.v)))
        o.goal("ratio unchanged", fsame(q.inc.v, s.inc.v))
        o.goal("invariant", and_(*inv("exponential", q)))

@contract("C17", "ExponentialStep::set_inc", "time::exp_set_inc", specials=True)
def _(c):
    s, x = c.load("time::exp_set_inc", ["s", "x"])
    c.pre(*inv("exponential", s))
    lo, hi, n = sched(s)
    for o in c.run():
        q = o.now("s")
        o.goal("rejects exactly ratios not above one", iff(o.err(), not_(fgt(x.v, Fraction(1)))))
        o.goal("error code", implies(o.err(), o.code("InvalidArgumentInput")))
        o.goal("nothing changes on error", same_state("exponential", q, s), [o.err()])
        o.goal("only the ratio changes", same_state("exponential", q, s, ("inc",)))
        o.goal("ratio greater than one", fgt(q.inc.v, Fraction(1)))
        o.goal("at most the requested ratio", fle(q.inc.v, x.v), [o.ok(), fgt(x.v, fr(1.2))])
        o.goal("the requested ratio where half the length allows it", fsame(q.inc.v, x.v), [o.ok(), not_(x.v.pinf), le(mul(Fraction(2), x.v.v), z3.ToReal(Z(n)))])
        o.goal("invariant", and_(*inv("exponential", q)))
