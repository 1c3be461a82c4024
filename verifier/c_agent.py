"""Agents: mutual displacement, random movement, interaction, merging, construction."""
from contract import *
from c_sys import coords, DIMMAX
from c_pos import dist2
from c_misc import gdraw
import sym

KIND = {"indep": "ContPassiveIndepAgent", "merge": "ContPassiveMergeAgent", "exp": "ContPassiveExpAgent", "lj": "ContPassiveLJAgent"}
DIM = {"indep": "dim", "merge": "dim", "exp": "exp_dim", "lj": "dim"}

def wf(k, a):
    """the agent's dimension is that of its position"""
    return [eq(a.f(DIM[k]).x, a.pos.coordinate.len), le(a.pos.coordinate.len, DIMMAX)]

def scalars(v):
    """scalar fields of a structure by path, sequences left out"""
    out = []
    def go(path, v):
        if isinstance(v, F): out.append((path, v.v))
        elif isinstance(v, Agg):
            for i, x in enumerate(v.fs): go(path + (i,), x)
        elif isinstance(v, Enum):
            out.append((path + ("d",), v.d))
            for kk in sorted(v.pl):
                for i, x in enumerate(v.pl[kk]): go(path + ("v%d" % kk, i), x)
        elif isinstance(v, Seq): out.append((path + ("len",), v.len))
        elif is_scalar(v): out.append((path, v))
    go((), v)
    return out

def unchanged(o, label, name, before):
    """an operand is as it was (scalars, lengths and position coordinates)"""
    now = o.now(name)
    a, b = dict(scalars(before.v)), dict(scalars(now.v))
    g = [eq(a[p], b[p]) if p in b else False for p in a if not (isinstance(p[-1], int) and len(p) > 1 and str(p[-2]).startswith("v"))]
    o.goal(label, and_(*g))
    if before.has("pos"):
        i, h = o.c.idx("i", 0, before.pos.coordinate.len)
        o.goal(label + " (position)", eq(coords(now.pos)(i), coords(before.pos)(i)), h)
    if before.has("mtype"):
        m, n = before.mtype, now.mtype
        if m.pay("Brownian") is not None and n.pay("Brownian") is not None:
            o.goal(label + " (movement)", implies(m.isv("Brownian"), eq(m.pay("Brownian").x, n.pay("Brownian").x)))

# --------------------------------------------------------------- C08
for k in KIND:
    def f(c, k=k):
        a, b = c.load("agent::%s::mutual_displacement" % k, ["a", "b"])
        c.pre(*wf(k, a), *wf(k, b))
        x, y, n = coords(a.pos), coords(b.pos), a.pos.coordinate.len
        d2 = dist2(y, x, n)
        c.pre(gt(d2, Fraction(0)))
        same_dim = eq(n, b.pos.coordinate.len)
        for o in c.run():
            o.goal("error exactly for different dimensions", iff(o.err(), not_(same_dim)))
            o.goal("error code", implies(o.err(), o.code("InvalidDimension")))
            unchanged(o, "first agent unchanged", "a", a)
            unchanged(o, "second agent unchanged", "b", b)
            r = o.okv()
            if r is None:
                continue
            i, h = c.idx("i", 0, n)
            o.goal("dimension", eq(r.f("0").coordinate.len, n), [o.ok()])
            o.goal("distance", eq(r.f("1").x, rsqrt(d2)), [o.ok()])
            o.goal("distance times direction is the difference of positions", eq(mul(r.f("1").x, coords(r.f("0"))(i)), sub(y(i), x(i))), h + [o.ok()])
    contract("C08", KIND[k] + "::mutual_displacement", "agent::%s::mutual_displacement" % k)(f)
    def f(c, k=k):
        a, b, v = c.load("agent::%s::mutual_displacement_to_vec" % k, ["a", "b", "v"])
        c.pre(*wf(k, a), *wf(k, b))
        x, y, n, w = coords(a.pos), coords(b.pos), a.pos.coordinate.len, coords(v)
        d2 = dist2(y, x, n)
        c.pre(gt(d2, Fraction(0)))
        good = and_(eq(n, b.pos.coordinate.len), eq(n, v.coordinate.len))
        for o in c.run():
            o.goal("error exactly for different dimensions", iff(o.err(), not_(good)))
            o.goal("error code", implies(o.err(), o.code("InvalidDimension")))
            unchanged(o, "first agent unchanged", "a", a)
            unchanged(o, "second agent unchanged", "b", b)
            q = o.now("v")
            o.goal("vector keeps its dimension", eq(q.coordinate.len, v.coordinate.len))
            j, hj = c.idx("j", 0, v.coordinate.len)
            o.goal("vector untouched on error", eq(coords(q)(j), w(j)), hj + [o.err()])
            r = o.okv()
            if r is None:
                continue
            i, h = c.idx("i", 0, n)
            o.goal("distance", eq(r.x, rsqrt(d2)), [o.ok()])
            o.goal("distance times direction is the difference of positions", eq(mul(r.x, coords(q)(i)), sub(y(i), x(i))), h + [o.ok()])
    contract("C08", KIND[k] + "::mutual_displacement_to_vec", "agent::%s::mutual_displacement_to_vec" % k)(f)
    def f(c, k=k):
        a, b = c.load("agent::%s::mutual_distance" % k, ["a", "b"])
        c.pre(*wf(k, a), *wf(k, b))
        x, y, n = coords(a.pos), coords(b.pos), a.pos.coordinate.len
        for o in c.run():
            o.goal("error exactly for different dimensions", iff(o.err(), not_(eq(n, b.pos.coordinate.len))))
            o.goal("error code", implies(o.err(), o.code("InvalidDimension")))
            if o.okv() is not None:
                o.goal("distance", eq(o.okv().x, rsqrt(dist2(y, x, n))), [o.ok()])
    contract("C08", KIND[k] + "::mutual_distance", "agent::%s::mutual_distance" % k)(f)

# --------------------------------------------------------------- C09
for k in KIND:
    def f(c, k=k):
        a, g, dt = c.load("agent::%s::random_move" % k, ["a", "g", "dt"])
        c.pre(*wf(k, a))
        n, D = a.pos.coordinate.len, a.mtype.pay("Brownian").x
        c.pre(ge(dt.x, Fraction(0)), implies(a.mtype.isv("Brownian"), ge(D, Fraction(0))))
        s = rsqrt(mul(mul(Fraction(2), D), dt.x))
        for o in c.run():
            o.goal("error exactly for other movement", iff(o.err(), not_(a.mtype.isv("Brownian"))))
            o.goal("error code", implies(o.err(), o.code("FeatureNotProvided")))
            unchanged(o, "agent unchanged", "a", a)
            e = o.now("g").v
            o.goal("no draw on error", implies(o.err(), eq(e.idx, g.v.idx)))
            r = o.okv()
            if r is None:
                continue
            i, h = c.idx("i", 0, n)
            o.goal("dimension", eq(r.coordinate.len, n), [o.ok()])
            o.goal("one draw per coordinate", eq(e.idx, add(g.v.idx, n)), [o.ok()])
            o.goal("each coordinate its own draw times sqrt(2 D dt)", eq(coords(r)(i), mul(s, gdraw(g.v.sid, iz(add(g.v.idx, i))))), h + [o.ok()])
    contract("C09", KIND[k] + "::random_move", "agent::%s::random_move" % k)(f)
    def f(c, k=k):
        a, g, dt, v = c.load("agent::%s::random_move_to_vec" % k, ["a", "g", "dt", "v"])
        c.pre(*wf(k, a))
        n, D = a.pos.coordinate.len, a.mtype.pay("Brownian").x
        c.pre(ge(dt.x, Fraction(0)), implies(a.mtype.isv("Brownian"), ge(D, Fraction(0))))
        s = rsqrt(mul(mul(Fraction(2), D), dt.x))
        x, m = coords(v), v.coordinate.len
        good = and_(eq(n, m), a.mtype.isv("Brownian"))
        for o in c.run():
            o.goal("error exactly for other movement or dimension", iff(o.err(), not_(good)))
            o.goal("error code for a wrong dimension", implies(and_(o.err(), a.mtype.isv("Brownian")), o.code("InvalidDimension")))
            o.goal("error code for other movement", implies(and_(o.err(), eq(n, m)), o.code("FeatureNotProvided")))
            unchanged(o, "agent unchanged", "a", a)
            e = o.now("g").v
            q = o.now("v")
            j, hj = c.idx("j", 0, m)
            o.goal("no draw on error", implies(o.err(), eq(e.idx, g.v.idx)))
            o.goal("vector keeps its dimension", eq(q.coordinate.len, m))
            o.goal("vector untouched on error", eq(coords(q)(j), x(j)), hj + [o.err()])
            if o.okv() is None:
                continue
            o.goal("one draw per coordinate", eq(e.idx, add(g.v.idx, n)), [o.ok()])
            o.goal("each coordinate increased by its own draw times sqrt(2 D dt)", eq(coords(q)(j), add(x(j), mul(s, gdraw(g.v.sid, iz(add(g.v.idx, j)))))), hj + [o.ok()])
    contract("C09", KIND[k] + "::random_move_to_vec", "agent::%s::random_move_to_vec" % k)(f)

# --------------------------------------------------------------- C11
def diff(t, r):
    """derivative of a real term by r (sum, product, quotient, power and chain rules)"""
    if isc(t):
        return Fraction(0)
    if t.eq(r):
        return Fraction(1)
    if not contains(t, r):
        return Fraction(0)
    k = t.decl().kind()
    ch = [norm(x) for x in t.children()]
    if k == z3.Z3_OP_ADD:
        s = Fraction(0)
        for x in ch: s = add(s, diff(x, r))
        return s
    if k == z3.Z3_OP_SUB:
        s = diff(ch[0], r)
        for x in ch[1:]: s = sub(s, diff(x, r))
        return s
    if k == z3.Z3_OP_UMINUS:
        return neg(diff(ch[0], r))
    if k == z3.Z3_OP_MUL:
        s = Fraction(0)
        for i in range(len(ch)):
            p = diff(ch[i], r)
            for j, y in enumerate(ch):
                if j != i: p = mul(p, y)
            s = add(s, p)
        return s
    if k == z3.Z3_OP_DIV:
        a, b = ch
        return rdiv(sub(mul(diff(a, r), b), mul(a, diff(b, r))), mul(b, b))
    if k == z3.Z3_OP_POWER and isc(ch[1]):
        n = Fraction(ch[1])
        if n.denominator == 1 and n > 0:
            p = Fraction(1)
            for _ in range(int(n) - 1): p = mul(p, ch[0])
            return mul(mul(n, p), diff(ch[0], r))
    if t.decl().eq(sym.EXP):
        return mul(t, diff(ch[0], r))
    if t.decl().name() == "inv" or t.decl().name() == "#inv":
        return neg(mul(mul(t, t), diff(ch[0], r)))
    raise Unsupported("derivative of %s" % t.decl())

def exp_inv(a):
    """what every construction of an exponential agent establishes"""
    return [eq(a.coeff_pot.x, a.strength.x), eq(a.coeff_force.x, rdiv(a.strength.x, a.gamma.x))]

def lj_inv(a):
    return [eq(a.coeff_pot.x, mul(Fraction(4), a.strength.x)), eq(a.coeff_force.x, rdiv(mul(Fraction(24), a.strength.x), a.ptl_size.x))]

def lj_pot(s, a, r):
    x = rdiv(a, r)
    x2 = mul(x, x); x6 = mul(mul(x2, x2), x2)
    return mul(mul(Fraction(4), s), sub(mul(x6, x6), x6))

@contract("C11", "ContPassiveExpAgent::potential and ::force", "agent::exp_potential")
def _(c):
    a, r = c.load("agent::exp_potential", ["a", "r"])
    c.pre(gt(a.gamma.x, Fraction(0)), gt(r.x, Fraction(0)), *exp_inv(a))
    s, g = a.strength.x, a.gamma.x
    fo = c.call(c.st, "agent::exp_force", [c.argv["a"], c.argv["r"]])
    for o in c.run():
        o.goal("potential is strength exp(-r/gamma)", eq(o.ret.x, mul(s, sym.EXP(Z(pz(poly(rdiv(neg(r.x), g))))))))
        d = diff(o.ret.x, r.x)
        for w in fo:
            if w.kind == "ret":
                o.goal("force is minus the derivative of the potential", eq(w.val.v, neg(d)), w.st.pc)
            else:
                c.goal("force does not panic", False, w.st.pc)

@contract("C11", "ContPassiveLJAgent::potential and ::force", "agent::lj_potential")
def _(c):
    a, r = c.load("agent::lj_potential", ["a", "r"])
    c.pre(gt(a.ptl_size.x, Fraction(0)), gt(r.x, Fraction(0)), *lj_inv(a))
    fo = c.call(c.st, "agent::lj_force", [c.argv["a"], c.argv["r"]])
    for o in c.run():
        o.goal("potential is 4 strength ((a/r)^12 - (a/r)^6)", eq(o.ret.x, lj_pot(a.strength.x, a.ptl_size.x, r.x)))
        d = diff(o.ret.x, r.x)
        for w in fo:
            if w.kind == "ret":
                o.goal("force is minus the derivative of the potential", eq(w.val.v, neg(d)), w.st.pc)
            else:
                c.goal("force does not panic", False, w.st.pc)

def same_move(a, b):
    return and_(eq(a.v.d, b.v.d), implies(a.isv("Brownian"), eq(a.pay("Brownian").x, b.pay("Brownian").x)))

@contract("C11", "ContPassiveExpAgent::new", "agent::exp_new")
def _(c):
    it, m, p, st = c.load("agent::exp_new", ["i", "m", "p", "s"])
    d, g = it.pay("Exponential", 0).x, it.pay("Exponential", 1).x
    n = p.coordinate.len
    c.pre(le(n, DIMMAX), implies(it.isv("Exponential"), gt(g, Fraction(0))))
    valid = and_(it.isv("Exponential"), eq(d, n))
    outs, pans = c.run_panics()
    for o in pans:
        c.goal("panics only for another interaction or dimension", not_(valid), o.st.pc)
    for o in outs:
        a = o.ret
        o.goal("another interaction or dimension panics", valid)
        o.goal("parameters as given", and_(eq(a.gamma.x, g), eq(a.strength.x, st.x), eq(a.exp_dim.x, n), eq(a.pos.coordinate.len, n), same_move(a.mtype, m)))
        o.goal("coefficients", and_(*exp_inv(a)))
        i, h = c.idx("i", 0, n)
        o.goal("position as given", eq(coords(a.pos)(i), coords(p)(i)), h)
    c.reach += len(outs)

@contract("C11", "ContPassiveLJAgent::new", "agent::lj_new")
def _(c):
    it, m, p, st = c.load("agent::lj_new", ["i", "m", "p", "s"])
    g = it.pay("LennardJones", 0).x
    n = p.coordinate.len
    c.pre(le(n, DIMMAX), implies(it.isv("LennardJones"), gt(g, Fraction(0))))
    valid = it.isv("LennardJones")
    outs, pans = c.run_panics()
    for o in pans:
        c.goal("panics only for another interaction", not_(valid), o.st.pc)
    for o in outs:
        a = o.ret
        o.goal("another interaction panics", valid)
        o.goal("parameters as given", and_(eq(a.ptl_size.x, g), eq(a.strength.x, st.x), eq(a.dim.x, n), eq(a.pos.coordinate.len, n), same_move(a.mtype, m)))
        o.goal("coefficients", and_(*lj_inv(a)))
        i, h = c.idx("i", 0, n)
        o.goal("position as given", eq(coords(a.pos)(i), coords(p)(i)), h)
    c.reach += len(outs)

def empty_vec(p):
    n = p.coordinate.v
    return isinstance(n, Seq) and isinstance(n.node, NList) and not n.node.xs

@contract("C11", "ContPassiveExpAgent::convert_from", "agent::exp_from")
def _(c):
    (g,) = c.load("agent::exp_from", ["g"])
    it = g.itype
    p = it.pay("SpecificPosition")
    spec = it.isv("SpecificPosition")
    pl = p.coordinate.len
    c.pre(gt(g.gamma.x, Fraction(0)), le(g.num_agent.x, DIMMAX), le(pl, DIMMAX))
    valid = or_(not_(spec), eq(pl, 0), eq(pl, g.exp_dim.x))
    outs, pans = c.run_panics()
    for o in pans:
        c.goal("panics only for contradicting dimensions", not_(valid), o.st.pc)
    for o in outs:
        o.goal("contradicting dimensions panic", valid)
        o.goal("number of agents", eq(o.ret.len, g.num_agent.x))
        i, h = c.idx("i", 0, g.num_agent.x)
        a = o.ret.at(i)
        o.goal("parameters as given", and_(eq(a.gamma.x, g.gamma.x), eq(a.strength.x, g.strength.x), eq(a.exp_dim.x, g.exp_dim.x), same_move(a.mtype, g.mtype)), h)
        o.goal("coefficients", and_(*exp_inv(a)), h)
        j, hj = c.idx("j", 0, pl)
        if empty_vec(a.pos):
            o.goal("empty position only when not specified", not_(and_(spec, gt(pl, 0))), h)
            continue
        o.goal("position as given", and_(eq(a.pos.coordinate.len, pl), eq(coords(a.pos)(j), coords(p)(j))), h + hj + [spec])
    c.reach += len(outs)

@contract("C11", "ContPassiveLJAgent::convert_from", "agent::lj_from")
def _(c):
    (g,) = c.load("agent::lj_from", ["g"])
    it = g.itype
    p = it.pay("SpecificPosition")
    spec = it.isv("SpecificPosition")
    pl = p.coordinate.len
    c.pre(gt(g.ptl_size.x, Fraction(0)), le(g.num_agent.x, DIMMAX), le(pl, DIMMAX))
    for o in c.run():
        o.goal("number of agents", eq(o.ret.len, g.num_agent.x))
        i, h = c.idx("i", 0, g.num_agent.x)
        a = o.ret.at(i)
        o.goal("parameters as given", and_(eq(a.ptl_size.x, g.ptl_size.x), eq(a.strength.x, g.strength.x), same_move(a.mtype, g.mtype)), h)
        o.goal("coefficients", and_(*lj_inv(a)), h)
        j, hj = c.idx("j", 0, pl)
        if empty_vec(a.pos):
            o.goal("empty position only when not specified", not_(and_(spec, gt(pl, 0))), h)
            continue
        o.goal("position as given", and_(eq(a.pos.coordinate.len, pl), eq(a.dim.x, pl), eq(coords(a.pos)(j), coords(p)(j))), h + hj + [spec])

# --------------------------------------------------------------- C12 (agents)
def dcoef(n, al):
    """size^(-alpha)"""
    return sym.POW(Z(z3.ToReal(Z(n))) if not isc(n) else Z(Fraction(n)), Z(neg(al)))

for nm in ("merge", "add_size"):
    def f(c, nm=nm):
        a, b = c.load("agent::merge_" + nm, ["a", "b"])
        inc = b.size.x if nm == "merge" else b.x
        c.pre(*wf("merge", a), ge(a.size.x, 1), ge(inc, 1 if nm == "merge" else 0), le(a.size.x, DIMMAX), le(inc, DIMMAX))
        for o in c.run():
            o.goal("error exactly for other movement", iff(o.err(), not_(a.mtype.isv("Brownian"))))
            o.goal("error code", implies(o.err(), o.code("FeatureNotProvided")))
            q = o.now("a")
            o.goal("unchanged on error", and_(eq(q.size.x, a.size.x), eq(q.mtype.v.d, a.mtype.v.d)), [o.err()])
            i, h = c.idx("i", 0, a.pos.coordinate.len)
            o.goal("everything else unchanged", and_(eq(q.alpha.x, a.alpha.x), eq(q.dim.x, a.dim.x), eq(q.ptl_radius.x, a.ptl_radius.x), eq(coords(q.pos)(i), coords(a.pos)(i)), eq(q.pos.coordinate.len, a.pos.coordinate.len)), h)
            if nm == "merge":
                unchanged(o, "absorbed agent unchanged", "b", b)
            if o.okv() is None:
                continue
            o.goal("sizes add up", eq(q.size.x, add(a.size.x, inc)), [o.ok()])
            o.goal("diffusion coefficient is size^(-alpha)", and_(q.mtype.isv("Brownian"), eq(q.mtype.pay("Brownian").x, dcoef(q.size.x, a.alpha.x))), [o.ok()])
    contract("C12", "ContPassiveMergeAgent::" + nm, "agent::merge_" + nm)(f)

@contract("C12", "ContPassiveMergeAgent::size", "agent::merge_size")
def _(c):
    (a,) = c.load("agent::merge_size", ["a"])
    for o in c.run():
        o.goal("the size", eq(o.ret.x, a.size.x))
        unchanged(o, "agent unchanged", "a", a)

# --------------------------------------------------------------- C10
# Calls through &dyn SystemCore / &dyn TargetCore are checked against contracts of
# the trait's methods; C04, C05 and C06 discharge these for the implementations.
def RP(sid):
    """coordinate j of the random position the generator yields from state i"""
    return uf("RP@" + sid, IS, IS, RS)

def found(i):
    return uf("FOUND", IS, BS)(Z(i))

def which_random(c, st, seq, name):
    """generator state of the random position a vector holds, if it holds one"""
    if not isinstance(seq, Seq) or (isinstance(seq.node, NList) and not seq.node.xs):
        return None
    j = fresh_int("rj")
    def go(t):
        if t is None or isc(t) or not z3.is_app(t):
            return None
        if t.decl().kind() == z3.Z3_OP_ITE:
            g = t.arg(0)
            if contains(g, j): return None
            if valid(st.pc, g): return go(t.arg(1))
            if valid(st.pc, not_(g)): return go(t.arg(2))
            a, b = go(t.arg(1)), go(t.arg(2))
            return None if a is None or b is None else ite(g, a, b)
        if t.decl().name().startswith("RP@") and t.arg(1).eq(j) and not contains(t.arg(0), j):
            return iz(norm(t.arg(0)))
        return None
    try:
        t = c.e.nread(None, seq.node, j)
        return go(t.v if isinstance(t, F) else None)
    except (Unsupported, MergeFail):
        return None

def trait_contracts(c, N, M):
    e = c.e
    def result(cx, ok=None):
        """Ok with a payload or Err(InvalidDimension)"""
        t = cx.dest_ty
        if ok is not None:
            return Enum(t, 0, {0: (ok,)})
        et = e.p.ty[t]["variants"][1]["fields"][0]["ty"]
        v = e.fresh(cx.st, et, fresh_name("err"))
        return Enum(t, 1, {1: (v,)})
    def err(cx, st, code="InvalidDimension"):
        keep = cx.st; cx.st = st
        r = result(cx)
        cx.st = keep
        st.assume(error_code(V(c, st, r.pl[1][0]), code))
        return r
    def vec(cx, node_f, ty):
        sty = e.p.ty[ty]["variants"][0]["fields"][0]["ty"]
        return Agg(ty, [Seq(sty, e.p.targ(sty), N, NBase(node_f, ("rp", fresh_name("k"))))])
    def anything():
        f = uf(fresh_name("OUT"), IS, RS)
        return lambda i: F(f(Z(i)))
    def out_of_system(cx):
        return vec(cx, anything(), cx.dest_ty)
    def put(cx, st, ref, f):
        p = e.load(st, ref)
        s = p.fs[0]
        e.store(st, ref, Agg(p.ty, [Seq(s.ty, s.ety, s.len, NBase(f, ("rp", fresh_name("k"))))]))
    unit = lambda: Agg(None, [])
    def out_of_system_to_vec(cx):
        ref = cx.args[1]
        def ok(st):
            put(cx, st, ref, anything()); return Enum(cx.dest_ty, 0, {0: (unit(),)})
        return cx.fork(eq(e.load(cx.st, ref).fs[0].len, N), ok, lambda st: err(cx, st))
    def draw_pos(st, rref):
        g = e.load(st, rref)
        i = g.idx
        e.store(st, rref, Rng(iz(add(i, 1)), g.sid))
        rp = RP(g.sid)
        return lambda j: F(rp(Z(i), Z(j)))
    def random_pos_to_vec(cx):
        rref, ref = cx.args[1], cx.args[2]
        def ok(st):
            put(cx, st, ref, draw_pos(st, rref)); return Enum(cx.dest_ty, 0, {0: (unit(),)})
        return cx.fork(eq(e.load(cx.st, ref).fs[0].len, N), ok, lambda st: err(cx, st))
    def random_pos(cx):
        t = cx.dest_ty
        pt = e.p.ty[t]["variants"][0]["fields"][0]["ty"]
        return Enum(t, 0, {0: (vec(cx, draw_pos(cx.st, cx.args[1]), pt),)})
    def judge(dim, known):
        def f(cx):
            p = e.load(cx.st, cx.args[1])
            s = p.fs[0]
            k = which_random(c, cx.st, s, "p")
            r = known(k) if k is not None else fresh_bool("judge")
            return cx.fork(eq(s.len, dim), lambda st: Enum(cx.dest_ty, 0, {0: (r,)}), lambda st: err(cx, st))
        return f
    for rx, f in (("SystemCore<f64>>::random_pos$", random_pos), ("SystemCore<f64>>::random_pos_to_vec$", random_pos_to_vec),
                  ("SystemCore<f64>>::position_out_of_system$", out_of_system), ("SystemCore<f64>>::position_out_of_system_to_vec$", out_of_system_to_vec),
                  ("SystemCore<f64>>::check_inclusion$", judge(N, lambda k: True)), ("TargetCore<f64>>::check_find$", judge(M, found))):
        e.summaries["^<dyn .*" + rx] = f
        c.e.trusted["trait contract of <dyn " + rx[:-1] + " (discharged for the implementations by C04, C05, C06)"] = 1

def placed(o, c, q, N, hyps):
    """the agent is at a random position of the system that has not found the target"""
    o.goal("the system's dimension", eq(q.pos.coordinate.len, N), hyps)
    if q.has("dim") or q.has("exp_dim"):
        o.goal("recorded dimension", eq(q.f("dim" if q.has("dim") else "exp_dim").x, N), hyps)
    k = which_random(c, o.st, q.pos.coordinate.v, "pos")
    o.goal("position is one the system drew inside itself", k is not None, hyps)
    if k is not None:
        o.goal("target not found there", not_(found(k)), hyps)

for k in KIND:
    def f(c, k=k):
        a, s, t, g = c.load("agent::%s::renew_uniform" % k, ["a", "s", "t", "g"])
        N = z3.Int("N")
        c.pre(ge(N, 1), le(N, DIMMAX), *wf(k, a))
        trait_contracts(c, N, N)
        bad = not_(a.mtype.isv("Brownian")) if k == "merge" else False
        for o in c.run():
            o.goal("error exactly for movement without a diffusion coefficient" if k == "merge" else "never an error", iff(o.err(), bad))
            q = o.now("a")
            placed(o, c, q, N, [] if k != "merge" else [o.ok()])
            if k == "merge":
                o.goal("unit size", eq(q.size.x, 1), [o.ok()])
                one = F(Fraction(1))
                o.goal("diffusion coefficient of unit size", and_(q.mtype.isv("Brownian"), eq(q.mtype.pay("Brownian").x, dcoef(1, a.alpha.x))), [o.ok()])
                o.goal("other parameters unchanged", and_(eq(q.alpha.x, a.alpha.x), eq(q.ptl_radius.x, a.ptl_radius.x)))
            else:
                o.goal("movement unchanged", same_move(q.mtype, a.mtype))
            if k == "exp":
                o.goal("other parameters unchanged", and_(eq(q.gamma.x, a.gamma.x), eq(q.strength.x, a.strength.x)))
            if k == "lj":
                o.goal("other parameters unchanged", and_(eq(q.ptl_size.x, a.ptl_size.x), eq(q.strength.x, a.strength.x)))
    contract("C10", KIND[k] + "::renew_uniform", "agent::%s::renew_uniform" % k)(f)

EXTRA = {"indep": [], "merge": ["r", "al"], "exp": ["i", "st"], "lj": ["i", "st"]}
ORDER = {"indep": ["s", "t", "g", "m"], "merge": ["s", "t", "g", "m", "r", "al"], "exp": ["s", "t", "g", "i", "m", "st"], "lj": ["s", "t", "g", "i", "m", "st"]}
for k in KIND:
    def f(c, k=k):
        c.load("agent::%s_new_uniform" % k, ORDER[k])
        A = c.args
        N = z3.Int("N")
        c.pre(ge(N, 1), le(N, DIMMAX))
        trait_contracts(c, N, N)
        good = True
        if k == "exp":
            it = A["i"]
            good = and_(it.isv("Exponential"), eq(it.pay("Exponential", 0).x, N))
            c.pre(implies(it.isv("Exponential"), gt(it.pay("Exponential", 1).x, Fraction(0))))
        if k == "lj":
            it = A["i"]
            good = it.isv("LennardJones")
            c.pre(implies(good, gt(it.pay("LennardJones", 0).x, Fraction(0))))
        for o in c.run():
            o.goal("error exactly for another interaction or dimension" if k in ("exp", "lj") else "never an error", iff(o.ok(), good))
            o.goal("error code", implies(o.err(), o.code("InvalidArgumentInput")) if k in ("exp", "lj") else True)
            q = o.okv()
            if q is None: continue
            ok = [o.ok()]
            placed(o, c, q, N, ok)
            o.goal("the requested movement", same_move(q.mtype, A["m"]), ok)
            if k == "merge":
                o.goal("the requested parameters", and_(eq(q.size.x, 1), eq(q.ptl_radius.x, A["r"].x), eq(q.alpha.x, A["al"].x)), ok)
            if k == "exp":
                o.goal("the requested parameters", and_(eq(q.gamma.x, it.pay("Exponential", 1).x), eq(q.strength.x, A["st"].x), *exp_inv(q)), ok)
            if k == "lj":
                o.goal("the requested parameters", and_(eq(q.ptl_size.x, it.pay("LennardJones", 0).x), eq(q.strength.x, A["st"].x), *lj_inv(q)), ok)
    contract("C10", KIND[k] + "::new_uniform", "agent::%s_new_uniform" % k)(f)
