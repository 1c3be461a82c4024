"""Random vectors, errors, constructors."""
from contract import *
from c_sys import coords, DIMMAX, draw

SYNTAX = ("InvalidDimension", "InvalidType", "InvalidConfiguration", "InvalidNumberOfArguments", "InvalidArgumentInput",
          "InvalidFormat", "InvalidFile", "TooLargeTimeStep", "FeatureNotProvided", "UnexpectedEnd")

# --------------------------------------------------------------- C29
def code_of(v):
    while isinstance(v.v, Agg) and v.c.p.ty[v.v.ty]["k"] != "enum" and not hasattr(v.v, "d"):
        v = V(v.c, v.st, v.v.fs[0])
    return v

def category(code):
    """category prescribed for an error code"""
    return lambda name: {"Data": code.isv("Message"), "Io": code.isv("Io"),
                         "Syntax": and_(not_(code.isv("Message")), not_(code.isv("Io")))}[name]

@contract("C29", "Error::classify", "misc::err_classify")
def _(c):
    (e,) = c.load("misc::err_classify", ["e"])
    k = category(code_of(e))
    for o in c.run():
        for n in ("Data", "Io", "Syntax"):
            o.goal("category " + n, iff(o.ret.isv(n), k(n)))
        o.goal("error unchanged", eq(code_of(o.now("e")).v.d, code_of(e).v.d))

for n in ("Io", "Data", "Syntax"):
    def f(c, n=n):
        (e,) = c.load("misc::err_is_" + n.lower(), ["e"])
        for o in c.run():
            o.goal("agrees with the classification", iff(o.ret.x, category(code_of(e))(n)))
    contract("C29", "Error::is_" + n.lower(), "misc::err_is_" + n.lower())(f)

for n, nm in (("eq", "=="), ("ne", "!=")):
    def f(c, n=n):
        a, b = c.load("misc::err_" + n, ["a", "b"])
        ka, kb = category(code_of(a)), category(code_of(b))
        same = and_(*[iff(ka(x), kb(x)) for x in ("Data", "Io", "Syntax")])
        for o in c.run():
            o.goal("equal exactly for the same category", iff(o.ret.x, same if n == "eq" else not_(same)))
    contract("C29", "Error " + nm, "misc::err_" + n)(f)

for ctor, n in (("err_msg", "Message"), ("err_io", "Io")):
    def f(c, ctor=ctor, n=n):
        c.load("misc::" + ctor, ["m"])
        for o in c.run():
            o.goal("code", code_of(o.ret).isv(n))
    contract("C29", "Error::make_" + ctor.replace("err_", "error_"), "misc::" + ctor)(f)

@contract("C29", "Error::make_error_syntax", "misc::err_syntax")
def _(c):
    (k,) = c.load("misc::err_syntax", ["k"])
    for o in c.run():
        o.goal("code kept", eq(code_of(o.ret).v.d, k.v.d))

# --------------------------------------------------------------- C30
def only_valid(c, valid, checks):
    """returns exactly for valid arguments, and the built value satisfies the checks"""
    outs, pans = c.run_panics()
    for o in pans:
        c.goal("panics only for invalid arguments", not_(valid), o.st.pc)
    if not outs:
        c.obl.append(dict(label="some path returns", status="vacuous", backend="engine", secs=0))
    for o in outs:
        o.goal("invalid arguments panic", valid)
        for l, g in checks(o.ret):
            o.goal(l, g)
    c.reach += len(outs)

Z0 = Fraction(0)

def fgt(a, q):
    """greater than a constant, false for NaN"""
    return flt(F(q), a)

def fsame(a, b):
    """the same number: both NaN, both the same infinity, or equal finite values"""
    return and_(iff(a.nan, b.nan), iff(a.pinf, b.pinf), iff(a.ninf, b.ninf), or_(not_(a.isfin()), eq(a.v, b.v)))

def same_bc(a, b):
    return and_(eq(a.v.d, b.v.d), implies(a.isv("Mixed"), eq(a.pay("Mixed").x, b.pay("Mixed").x)))

def same_type(a, b):
    return and_(eq(a.v.d, b.v.d), implies(a.isv("ContinuousCylindrical"), eq(a.pay("ContinuousCylindrical").x, b.pay("ContinuousCylindrical").x)))

@contract("C30", "ContCircSystem::new", "misc::circ_new", specials=True)
def _(c):
    r, n = c.load("misc::circ_new", ["r", "n"])
    only_valid(c, and_(fgt(r.v, Z0), ge(n.x, 1)), lambda s: [
        ("size", fsame(s.sys_size.v, r.v)), ("dimension", eq(s.dim.x, n.x)), ("type", s.sys_type.isv("ContinuousCircular")), ("boundary condition", s.bctype.isv("Reflection"))])

@contract("C30", "ContCircSystem::convert_from", "misc::circ_from", specials=True)
def _(c):
    (a,) = c.load("misc::circ_from", ["a"])
    only_valid(c, and_(fgt(a.sys_size.v, Z0), ge(a.dim.x, 1)), lambda s: [
        ("size", fsame(s.sys_size.v, a.sys_size.v)), ("dimension", eq(s.dim.x, a.dim.x)), ("type", same_type(s.sys_type, a.sys_type)), ("boundary condition", same_bc(s.bctype, a.bctype))])

@contract("C30", "ContCubicSystem::new", "misc::cubic_new", specials=True)
def _(c):
    b, l, n = c.load("misc::cubic_new", ["b", "l", "n"])
    only_valid(c, and_(fgt(l.v, Z0), ge(n.x, 1), implies(b.isv("Mixed"), le(b.pay("Mixed").x, n.x))), lambda s: [
        ("size", fsame(s.sys_size.v, l.v)), ("dimension", eq(s.dim.x, n.x)), ("type", s.sys_type.isv("ContinuousRectangular")), ("boundary condition", same_bc(s.bctype, b))])

@contract("C30", "ContCubicSystem::convert_from", "misc::cubic_from", specials=True)
def _(c):
    (a,) = c.load("misc::cubic_from", ["a"])
    only_valid(c, and_(fgt(a.sys_size.v, Z0), ge(a.dim.x, 1), implies(a.bctype.isv("Mixed"), le(a.bctype.pay("Mixed").x, a.dim.x))), lambda s: [
        ("size", fsame(s.sys_size.v, a.sys_size.v)), ("dimension", eq(s.dim.x, a.dim.x)), ("type", same_type(s.sys_type, a.sys_type)), ("boundary condition", same_bc(s.bctype, a.bctype))])

@contract("C30", "ContCylindricalSystem::new", "misc::cyl_new", specials=True)
def _(c):
    d, r, l, n = c.load("misc::cyl_new", ["d", "r", "l", "n"])
    only_valid(c, and_(fgt(r.v, Z0), fgt(l.v, Z0), ge(n.x, 1), le(d.x, n.x)), lambda s: [
        ("radius", fsame(s.sys_radius.v, r.v)), ("length", fsame(s.sys_length.v, l.v)), ("dimension", eq(s.dim.x, n.x)),
        ("type", and_(s.sys_type.isv("ContinuousCylindrical"), eq(s.sys_type.pay("ContinuousCylindrical").x, d.x))),
        ("boundary condition", and_(s.bctype.isv("Mixed"), eq(s.bctype.pay("Mixed").x, d.x)))])

@contract("C30", "ContCylindricalSystem::convert_from", "misc::cyl_from", specials=True)
def _(c):
    (a,) = c.load("misc::cyl_from", ["a"])
    t, b = a.sys_type, a.bctype
    valid = and_(fgt(a.sys_radius.v, Z0), fgt(a.sys_length.v, Z0), ge(a.dim.x, 1), t.isv("ContinuousCylindrical"), b.isv("Mixed"),
                 eq(t.pay("ContinuousCylindrical").x, b.pay("Mixed").x), le(b.pay("Mixed").x, a.dim.x))
    only_valid(c, valid, lambda s: [
        ("radius", fsame(s.sys_radius.v, a.sys_radius.v)), ("length", fsame(s.sys_length.v, a.sys_length.v)), ("dimension", eq(s.dim.x, a.dim.x)),
        ("type", same_type(s.sys_type, t)), ("boundary condition", same_bc(s.bctype, b))])

# --------------------------------------------------------------- C28
def gdraw(sid, i):
    return uf("G@" + sid, IS, RS)(Z(i))

FORMS = {"uniform": draw, "gaussian": gdraw}
for kind, dr in FORMS.items():
    def f(c, kind=kind, dr=dr):
        (g,) = c.load("misc::" + kind, ["g"])
        for o in c.run():
            e = o.now("g").v
            o.goal("one draw", eq(e.idx, add(g.v.idx, 1)))
            o.goal("the draw itself", eq(o.ret.x, dr(g.v.sid, iz(g.v.idx))))
            if kind == "uniform":
                o.goal("strictly between 0 and 1", and_(gt(o.ret.x, Z0), lt(o.ret.x, Fraction(1))))
    contract("C28", "get_" + kind, "misc::" + kind)(f)
    def f(c, kind=kind, dr=dr):
        g, n = c.load("misc::%s_vec" % kind, ["g", "n"])
        c.pre(le(n.x, DIMMAX))
        for o in c.run():
            e = o.now("g").v
            r = o.ret
            o.goal("one draw per coordinate", eq(e.idx, add(g.v.idx, n.x)))
            o.goal("dimension", eq(r.coordinate.len, n.x))
            i, h = c.idx("i", 0, n.x)
            o.goal("each coordinate its own draw, in order", eq(r.coordinate.at(i).x, dr(g.v.sid, iz(add(g.v.idx, i)))), h)
    contract("C28", "get_%s_vec" % kind, "misc::%s_vec" % kind)(f)
    def f(c, kind=kind, dr=dr):
        g, v = c.load("misc::%s_to_vec" % kind, ["g", "v"])
        n = v.coordinate.len
        c.pre(le(n, DIMMAX))
        for o in c.run():
            e = o.now("g").v
            q = o.now("v")
            o.goal("one draw per coordinate", eq(e.idx, add(g.v.idx, n)))
            o.goal("dimension", eq(q.coordinate.len, n))
            i, h = c.idx("i", 0, n)
            o.goal("each coordinate overwritten by its own draw, in order", eq(q.coordinate.at(i).x, dr(g.v.sid, iz(add(g.v.idx, i)))), h)
    contract("C28", "get_%s_to_vec" % kind, "misc::%s_to_vec" % kind)(f)
    def f(c, kind=kind, dr=dr):
        g, v, a, b = c.load("misc::%s_to_vec_ns" % kind, ["g", "v", "a", "b"])
        n = v.coordinate.len
        c.pre(le(n, DIMMAX))
        x = coords(v)
        for o in c.run():
            e = o.now("g").v
            q = o.now("v")
            o.goal("one draw per coordinate", eq(e.idx, add(g.v.idx, n)))
            o.goal("dimension", eq(q.coordinate.len, n))
            i, h = c.idx("i", 0, n)
            u = dr(g.v.sid, iz(add(g.v.idx, i)))
            w = add(a.x, mul(u, sub(b.x, a.x))) if kind == "uniform" else add(a.x, mul(u, b.x))
            o.goal("each coordinate increased by its own draw", eq(q.coordinate.at(i).x, add(x(i), w)), h)
            if kind == "uniform":
                o.goal("draw strictly between the bounds", and_(gt(w, a.x), lt(w, b.x)), h + [lt(a.x, b.x), and_(gt(u, Z0), lt(u, Fraction(1)))])
    contract("C28", "get_%s_to_vec_nonstandard" % kind, "misc::%s_to_vec_ns" % kind)(f)

@contract("C28", "rng_seed", "misc::rng_seed")
def _(c):
    (s,) = c.load("misc::rng_seed", ["s"])
    for o in c.run():
        o.goal("starts at the first draw", eq(o.ret.v.idx, 0))
    # two calls with the same seed give the same stream
    a = c.call(c.st, "misc::rng_seed", [c.argv["s"]])
    b = c.call(c.st, "misc::rng_seed", [c.argv["s"]])
    for x in a:
        for y in b:
            if x.kind == y.kind == "ret":
                c.goal("determined by the seed", x.val.sid == y.val.sid and eq(x.val.idx, y.val.idx), x.st.pc + y.st.pc)
