"""Systems: inclusion, boundary steps, random and out-of-system positions."""
from contract import *

DIMMAX = 1 << 58

def sys_wf(kind, s):
    """a constructed system (C30)"""
    r = [ge(s.dim.x, 1), le(s.dim.x, DIMMAX)]
    if kind == "cyl":
        d = s.sys_type.pay("ContinuousCylindrical").x
        r += [s.sys_type.isv("ContinuousCylindrical"), le(d, s.dim.x), s.bctype.isv("Mixed"),
              eq(s.bctype.pay("Mixed").x, d), gt(s.sys_radius.x, Fraction(0)), gt(s.sys_length.x, Fraction(0))]
    elif kind == "circ":
        r += [gt(s.sys_size.x, Fraction(0)), s.bctype.isv("Reflection")]
    else:
        r += [gt(s.sys_size.x, Fraction(0)), implies(s.bctype.isv("Mixed"), le(s.bctype.pay("Mixed").x, s.dim.x))]
    return r

def sq(rd, lo, hi):
    return sum_range(lambda i: mul(rd(i), rd(i)), lo, hi)

def xa(x):
    return ite(ge(x, Fraction(0)), x, neg(x))

def member_parts(kind, s, rd):
    """(round condition or None, (lo, hi, body) of the per-coordinate condition or None)"""
    if kind == "circ":
        return le(sq(rd, 0, s.dim.x), mul(s.sys_size.x, s.sys_size.x)), None
    if kind == "cubic":
        return None, (0, s.dim.x, lambda i: le(xa(rd(i)), s.sys_size.x))
    d = s.sys_type.pay("ContinuousCylindrical").x
    return le(sq(rd, 0, d), mul(s.sys_radius.x, s.sys_radius.x)), (d, s.dim.x, lambda i: le(xa(rd(i)), s.sys_length.x))

def goal_member(o, label, kind, s, rd, hyps=()):
    """the position is in the closed domain"""
    c, q = member_parts(kind, s, rd)
    if c is not None:
        o.goal(label + " (round coordinates)", c, hyps)
    if q is not None:
        i, h = o.c.idx("i", q[0], q[1])
        o.goal(label + " (each box coordinate)", q[2](i), list(hyps) + h)

def hyp_member(kind, s, rd):
    c, q = member_parts(kind, s, rd)
    r = [c] if c is not None else []
    if q is not None:
        m = fresh_int("m")
        r.append(QFact(q[0], q[1], m, q[2](m)))
    return r

def goal_not_member(o, label, kind, s, rd, hyps=()):
    o.goal(label, False, list(hyps) + hyp_member(kind, s, rd))

TY = {"circ": "ContCircSystem", "cubic": "ContCubicSystem", "cyl": "ContCylindricalSystem"}
KINDS = ("circ", "cubic", "cyl")

def coords(p):
    q = p.coordinate
    return lambda i: q.at(i).x

# --------------------------------------------------------------- C03
for kind in KINDS:
    def f(c, kind=kind):
        s, p = c.load("sys::%s::check_inclusion" % kind, ["s", "p"])
        c.pre(*sys_wf(kind, s))
        n = p.coordinate.len
        for o in c.run():
            same_dim = eq(n, s.dim.x)
            o.goal("a wrong dimension is an invalid-dimension error and nothing else is an error",
                   iff(o.err(), not_(same_dim)))
            o.goal("error code", implies(o.err(), o.code("InvalidDimension")))
            r = o.okv()
            if r is not None:
                h = [o.ok(), r.x]
                goal_member(o, "answer true only for members", kind, s, coords(p), h)
                goal_not_member(o, "answer false only for non-members", kind, s, coords(p), [o.ok(), not_(r.x)])
    contract("C03", TY[kind] + "::check_inclusion", "sys::%s::check_inclusion" % kind)(f)

# --------------------------------------------------------------- C05
for kind in KINDS:
    def f(c, kind=kind):
        (s,) = c.load("sys::%s::out_of_system" % kind, ["s"])
        c.pre(*sys_wf(kind, s))
        for o in c.run():
            r = o.ret
            o.goal("dimension", eq(r.coordinate.len, s.dim.x))
            goal_not_member(o, "outside the system", kind, s, coords(r))
    contract("C05", TY[kind] + "::position_out_of_system", "sys::%s::out_of_system" % kind)(f)
    def f(c, kind=kind):
        s, p = c.load("sys::%s::out_of_system_to_vec" % kind, ["s", "p"])
        c.pre(*sys_wf(kind, s))
        n = p.coordinate.len
        ref = c.call(c.st, "sys::%s::out_of_system" % kind, [c.argv["s"]])
        for o in c.run():
            o.goal("error exactly for another dimension", iff(o.err(), not_(eq(n, s.dim.x))))
            o.goal("error code", implies(o.err(), o.code("InvalidDimension")))
            q = o.now("p")
            o.goal("length kept", eq(q.coordinate.len, n))
            i, h = c.idx("i", 0, n)
            o.goal("vector untouched on error", eq(q.coordinate.at(i).x, p.coordinate.at(i).x), h + [o.err()])
            if o.okv() is None:
                continue
            goal_not_member(o, "outside the system", kind, s, coords(q), [o.ok()])
            for w in ref:
                if w.kind == "ret":
                    wv = V(c, w.st, w.val)
                    o.goal("same position as the returning form", eq(q.coordinate.at(i).x, wv.coordinate.at(i).x),
                           h + [o.ok()] + [x for x in w.st.pc])
    contract("C05", TY[kind] + "::position_out_of_system_to_vec", "sys::%s::out_of_system_to_vec" % kind)(f)

# --------------------------------------------------------------- C04
def bound(kind, s, i):
    """half length of the bounding box in coordinate i"""
    if kind != "cyl":
        return s.sys_size.x
    return ite(lt(i, s.sys_type.pay("ContinuousCylindrical").x), s.sys_radius.x, s.sys_length.x)

def draw(sid, i):
    return uf("U@" + sid, IS, RS)(Z(i))

for kind in KINDS:
    def f(c, kind=kind):
        s, g = c.load("sys::%s::random_pos" % kind, ["s", "g"])
        c.pre(*sys_wf(kind, s))
        for o in c.run():
            o.goal("no error", o.ok())
            r = o.okv()
            if r is None:
                continue
            o.goal("dimension", eq(r.coordinate.len, s.dim.x))
            goal_member(o, "inside the system", kind, s, coords(r))
            end = o.now("g").v
            i, h = c.idx("i", 0, s.dim.x)
            u = draw(end.sid, iz(add(sub(end.idx, s.dim.x), i)))
            b = bound(kind, s, i)
            o.goal("affine image of this coordinate's own draw", eq(r.coordinate.at(i).x, mul(b, sub(mul(Fraction(2), u), Fraction(1)))), h)
            o.goal("fresh draws only", ge(sub(end.idx, s.dim.x), g.v.idx))
    contract("C04", TY[kind] + "::random_pos", "sys::%s::random_pos" % kind)(f)
    def f(c, kind=kind):
        s, g, p = c.load("sys::%s::random_pos_to_vec" % kind, ["s", "g", "p"])
        c.pre(*sys_wf(kind, s))
        n = p.coordinate.len
        for o in c.run():
            o.goal("error exactly for another dimension", iff(o.err(), not_(eq(n, s.dim.x))))
            o.goal("error code", implies(o.err(), o.code("InvalidDimension")))
            q = o.now("p")
            o.goal("length kept", eq(q.coordinate.len, n))
            i, h = c.idx("i", 0, n)
            o.goal("vector untouched on error", eq(q.coordinate.at(i).x, p.coordinate.at(i).x), h + [o.err()])
            end = o.now("g").v
            o.goal("no draw on error", implies(o.err(), eq(end.idx, g.v.idx)))
            if o.okv() is None:
                continue
            goal_member(o, "inside the system", kind, s, coords(q), [o.ok()])
            u = draw(end.sid, iz(add(sub(end.idx, s.dim.x), i)))
            b = bound(kind, s, i)
            o.goal("affine image of this coordinate's own draw", eq(q.coordinate.at(i).x, mul(b, sub(mul(Fraction(2), u), Fraction(1)))), h + [o.ok()])
            o.goal("fresh draws only", ge(sub(end.idx, s.dim.x), g.v.idx), [o.ok()])
    contract("C04", TY[kind] + "::random_pos_to_vec", "sys::%s::random_pos_to_vec" % kind)(f)

# --------------------------------------------------------------- C02
def mirror(kind, s, rd, i):
    """image of coordinate i of the moved position by the boundary condition, box coordinates"""
    L = s.sys_length.x if kind == "cyl" else s.sys_size.x
    x = rd(i)
    two = mul(Fraction(2), L)
    refl = ite(gt(x, L), sub(two, x), ite(lt(x, neg(L)), sub(neg(two), x), x))
    per = ite(gt(x, L), sub(x, two), ite(lt(x, neg(L)), add(x, two), x))
    return refl, per

def image(kind, s, rd, i):
    """coordinate i of the boundary image of the moved position rd (outside the system)"""
    if kind == "circ":
        n = rsqrt(sq(rd, 0, s.dim.x))
        return rdiv(mul(rd(i), sub(mul(Fraction(2), s.sys_size.x), n)), n)
    refl, per = mirror(kind, s, rd, i)
    if kind == "cubic":
        return ite(or_(s.bctype.isv("Reflection"), and_(s.bctype.isv("Mixed"), lt(i, s.bctype.pay("Mixed").x))), refl, per)
    d = s.sys_type.pay("ContinuousCylindrical").x
    q = sq(rd, 0, d)
    n = rsqrt(q)
    ray = ite(gt(q, mul(s.sys_radius.x, s.sys_radius.x)), rdiv(mul(rd(i), sub(mul(Fraction(2), s.sys_radius.x), n)), n), rd(i))
    return ite(lt(i, d), ray, per)

for kind in KINDS:
    def f(c, kind=kind):
        s, p, d = c.load("sys::%s::check_bc" % kind, ["s", "p", "d"])
        c.pre(*sys_wf(kind, s))
        n = s.dim.x
        c.pre(eq(p.coordinate.len, n), eq(d.coordinate.len, n))
        x0, dx = coords(p), coords(d)
        moved = lambda i: add(x0(i), dx(i))
        img = lambda i: image(kind, s, moved, i)
        for o in c.run():
            q, e = coords(o.now("p")), coords(o.now("d"))
            i, h = c.idx("i", 0, n)
            o.goal("displacement unchanged", eq(e(i), dx(i)), h)
            o.goal("dimensions unchanged", and_(eq(o.now("p").coordinate.len, n), eq(o.now("d").coordinate.len, n)))
            o.goal("inside: the moved point unchanged", eq(q(i), moved(i)), h + hyp_member(kind, s, moved))
            o.goal("inside: success", o.ok(), hyp_member(kind, s, moved))
            lab = "outside: the prescribed image"
            # outside: either the round condition fails or some box coordinate does
            cnd, qq = member_parts(kind, s, moved)
            outs = []
            if cnd is not None:
                outs.append([not_(cnd)])
            if qq is not None:
                j, hj = c.idx("j", qq[0], qq[1])
                outs.append(hj + [not_(qq[2](j))])
            for w in outs:
                o.goal(lab, eq(q(i), img(i)), h + w)
            # success exactly when the result is inside
            if o.okv() is not None:
                goal_member(o, "success only inside", kind, s, q, [o.ok()])
            goal_not_member(o, "error only outside", kind, s, q, [o.err()])
            o.goal("error code", implies(o.err(), o.code("TooLargeTimeStep")))
    contract("C02", TY[kind] + "::check_bc", "sys::%s::check_bc" % kind, budget=280)(f)

# --------------------------------------------------------------- C01
from vals import veq_syn

def finite_sizes(kind, s):
    return ["sys_radius", "sys_length"] if kind == "cyl" else ["sys_size"]

def tested(c, s):
    """the inclusion test by its contracts: an arbitrary answer, remembered with the position it was given"""
    def f(cx):
        p = V(c, cx.st, cx.args[1])
        q = V(c, cx.st, cx.args[0])
        if not veq_syn(q.v, s.v):
            raise Unsupported("inclusion test of another system")
        b = fresh_bool("included")
        if not valid(cx.st.pc, eq(p.coordinate.len, s.dim.x)):
            raise Unsupported("inclusion test of a position of another dimension")
        cx.st.ghost["tests"] = cx.st.ghost.get("tests", ()) + ((p.v, b),)
        return Enum(cx.dest_ty, 0, {0: (b,)})
    c.e.summaries[r"(::|>::)check_inclusion$"] = f

BCS = [(k, TY[k] + "::check_bc", "sys::%s::check_bc" % k) for k in KINDS] + [
    ("circ", "cont_circ::check_bc_exact", "sys::circ_bc_exact"), ("circ", "cont_circ::check_bc_first_order", "sys::circ_bc_first")]
for kind, fn, entry in BCS:
    def f(c, kind=kind, entry=entry):
        c.e.absfloat = True
        s, p, d = c.load(entry, ["s", "p", "d"])
        c.pre(*sys_wf(kind, s))
        c.pre(*[and_(not_(s.f(n).v.nan), not_(s.f(n).v.pinf), not_(s.f(n).v.ninf)) for n in finite_sizes(kind, s)])
        c.pre(eq(p.coordinate.len, s.dim.x), eq(d.coordinate.len, s.dim.x))
        tested(c, s)
        for o in c.run():
            q = o.now("p")
            yes = or_(*[b for v, b in o.st.ghost.get("tests", ()) if veq_syn(v, q.v)])
            o.goal("success only when the inclusion test accepted this very position", implies(o.ok(), yes))
            o.goal("dimension kept", eq(q.coordinate.len, s.dim.x))
    contract("C01", fn, entry, specials=True)(f)

for kind in KINDS:
    def f(c, kind=kind):
        c.e.absfloat = True
        s, p = c.load("sys::%s::check_inclusion" % kind, ["s", "p"])
        c.pre(*sys_wf(kind, s))
        c.pre(*[and_(not_(s.f(n).v.nan), not_(s.f(n).v.pinf), not_(s.f(n).v.ninf)) for n in finite_sizes(kind, s)])
        n = s.dim.x
        c.pre(eq(p.coordinate.len, n))
        j = z3.Int("bad")
        c.pre(le(0, j), lt(j, n))
        xj = p.coordinate.at(j).v
        d = s.sys_type.pay("ContinuousCylindrical").x if kind == "cyl" else 0
        bad = or_(xj.nan, xj.pinf, xj.ninf)
        c.e.candidates = [lambda v, t: not_(v.ninf), lambda v, t: or_(v.nan, v.pinf, ge(v.v, Fraction(0)))]
        for lo in ([0, d] if kind == "cyl" else [0]):
            c.e.candidates.append(lambda v, t, lo=lo: implies(and_(bad, le(lo, j), lt(j, add(lo, t))), or_(v.nan, v.pinf)))
        for o in c.run():
            o.goal("no error for the system's dimension", o.ok())
            r = o.okv()
            if r is not None:
                o.goal("a position with a NaN or infinite coordinate is not inside", implies(bad, not_(r.x)))
    contract("C01", TY[kind] + "::check_inclusion (special values)", "sys::%s::check_inclusion" % kind, specials=True)(f)
