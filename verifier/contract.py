"""Contracts: preconditions and postconditions on functions of the crate, stated
over values by field name, and the obligations they generate."""
import time, traceback, sys, json
from mir import *
from vals import *
from sym import *
import solve, engine
from engine import Engine, Budget

CONTRACTS = []

def contract(prop, func, entry, **kw):
    """registers a contract; the decorated function states it"""
    def d(f):
        CONTRACTS.append(dict(prop=prop, func=func, entry=entry, fn=f, **kw))
        return f
    return d

class V:
    """a value seen through its type: fields by name, elements by index"""
    def __init__(self, c, st, v, out=False):
        self.c, self.st, self.v, self.out = c, st, v, out
        while isinstance(self.v, Ref):
            self.v = c.e.load(st, self.v)
    def __getattr__(self, n):
        return self.f(n)
    def f(self, n):
        v = self.v
        ty = self.c.p.ty[v.ty]
        if isinstance(v, Agg):
            if ty["k"] == "tuple":
                return V(self.c, self.st, v.fs[int(n)], self.out)
            for i, fd in enumerate(ty["variants"][0]["fields"]):
                if fd["name"] == str(n):
                    return V(self.c, self.st, v.fs[i], self.out)
        raise Unsupported("no field %s in %s" % (n, ty.get("s")))
    def has(self, n):
        ty = self.c.p.ty[self.v.ty]
        return any(fd["name"] == n for fd in ty["variants"][0]["fields"])
    def variant_index(self, name):
        ty = self.c.p.ty[self.v.ty]
        for i, x in enumerate(ty["variants"]):
            if x["name"] == name:
                return i
        raise Unsupported("no variant %s in %s" % (name, ty.get("s")))
    def isv(self, name):
        return eq(self.v.d, self.variant_index(name))
    def pay(self, name, i=0):
        pl = self.v.pl.get(self.variant_index(name))
        return V(self.c, self.st, pl[i], self.out) if pl is not None else None
    @property
    def x(self):
        """scalar term; a result that may be NaN or infinite is an obligation of the next goal"""
        if self.out and isinstance(self.v, F) and not self.v.plain():
            self.c.pending.append(self.v)
        return self.v.v if isinstance(self.v, F) else self.v
    @property
    def len(self):
        if isinstance(self.v, (Slice, Seq)):
            return self.v.len
        raise Unsupported("length of %r" % type(self.v))
    def at(self, i):
        v = self.v
        if isinstance(v, Slice):
            return V(self.c, self.st, self.c.e.slice_get(self.st, v, i), self.out)
        if isinstance(v, Seq) and isinstance(v.node, NList) and not v.node.xs and not isc(i):
            # no such cell: nothing is known of it
            return V(self.c, self.st, self.c.e.fresh(State(), v.ety, fresh_name("cell")), self.out)
        return V(self.c, self.st, self.c.e.nread(self.st, v.node, i), self.out)
    def __repr__(self):
        return "V(%r)" % (self.v,)

class Out:
    """one returning path"""
    def __init__(self, c, o):
        self.c, self.st = c, o.st
        self.val = o.val
    @property
    def ret(self):
        return V(self.c, self.st, self.val, True)
    def now(self, name):
        """an argument's referent after the call"""
        return V(self.c, self.st, self.c.argv[name], True)
    def ok(self):
        return self.ret.isv("Ok")
    def err(self):
        return self.ret.isv("Err")
    def okv(self):
        return self.ret.pay("Ok")
    def code(self, name, which=None):
        """the returned error carries this code"""
        p = self.ret.pay("Err")
        if p is None:
            return False
        return error_code(p, name)
    def goal(self, label, g, hyps=(), frm=None):
        self.c.goal(label, g, list(self.st.pc) + list(hyps))
    def pc(self):
        return self.st.pc

def error_code(p, name):
    v = p
    while isinstance(v.v, Agg):
        v = V(v.c, v.st, v.v.fs[0])
    return v.isv(name)

class Case:
    def __init__(self, prog, spec, mode, dims=None, unroll=6, budget=120, specials=False, timeout=5000):
        self.p = prog
        self.spec = spec
        self.e = Engine(prog, mode, unroll)
        self.e.dims = dims
        self.mode = mode
        self.specials = specials
        self.timeout = timeout
        self.obl = []
        self.st = State()
        self.e.deadline = time.time() + budget
        self.deadline = time.time() + budget * 2
        self.args = {}
        self.argv = {}
        self.reach = 0
        self.assumed = []
        self.loopinfo = []
        self.pending = []

    # arguments
    def load(self, entry, names, concrete=None):
        iid = self.p.entries.get("vharness::" + entry)
        if iid is None:
            raise Unsupported("no entry " + entry)
        self.iid = iid
        body = self.p.insts[iid]["body"]
        assert body["argc"] == len(names), (entry, body["argc"])
        for i, n in enumerate(names):
            if concrete and n in concrete:
                v = concrete[n]
            elif n in self.argv:
                v = self.argv[n]
            else:
                v = self.e.fresh(self.st, body["locals"][i + 1], n, (), self.specials)
            self.argv[n] = v
            self.args[n] = V(self, self.st, v)
        self.order = list(names)
        self.st.pc = [c for c in self.st.pc if c is not True]
        self.pre_st = self.st.copy()
        r = []
        for n in names:
            r.append(V(self, self.pre_st, self.argv[n]))
        return r

    def pre(self, *cs):
        for c in cs:
            if c is True:
                continue
            self.st.assume(c)

    def run(self, entry=None, st=None, panics=True, allow=None):
        """executes the function; every panic is an obligation that it cannot happen"""
        st = (st or self.st).copy()
        iid = self.iid if entry is None else self.p.entries["vharness::" + entry]
        if not solve.feasible(st.pc, True, 5000):
            self.obl.append(dict(label="precondition is satisfiable", status="vacuous", backend="z3", secs=0))
        outs = self.e.exec_fn(st, iid, [self.argv[n] for n in self.order])
        res = []
        for o in outs:
            if o.kind == "panic":
                if allow is not None and allow(o):
                    continue
                if panics:
                    self.goal("no panic: %s at %s" % (str(o.val)[:80], (o.where or ["?"])[-1]), False, o.st.pc)
                continue
            res.append(Out(self, o))
        if res:
            self.reach += 1
        else:
            self.obl.append(dict(label="some path returns", status="vacuous", backend="engine", secs=0))
        self.panics = [o for o in outs if o.kind == "panic"]
        return res

    def run_panics(self, entry=None, st=None):
        """returning and panicking paths, no obligation"""
        outs = self.e.exec_fn((st or self.st).copy(), self.iid if entry is None else self.p.entries["vharness::" + entry], [self.argv[n] for n in self.order])
        return [Out(self, o) for o in outs if o.kind == "ret"], [o for o in outs if o.kind == "panic"]

    def call(self, st, entry, args):
        return self.e.exec_fn(st.copy(), self.p.entries["vharness::" + entry], args)

    def idx(self, name, lo, hi):
        """arbitrary index in a range, with its hypotheses"""
        i = fresh_int(name)
        return i, [le(lo, i), lt(i, hi)]

    def goal(self, label, g, hyps):
        pend, self.pending = self.pending, []
        for i, x in enumerate(pend):
            if any(veq_syn(x, y) for y in pend[:i]):
                continue
            self.goal(label + ": a number", x.isfin(), hyps)
        if time.time() > self.deadline:
            self.obl.append(dict(label=label, status="unknown", backend="budget", secs=0)); return False
        r, m, be, dt = solve.prove(hyps, g, self.timeout, 3)
        d = dict(label=label, status=r, backend=be, secs=round(dt, 3))
        if r == "refuted" and m is not None:
            d["model"] = model_text(m)
        if r != "proved":
            d["goal"] = str(g)[:2000]
            d["path"] = [str(h.body if isinstance(h, QFact) else h)[:300] for h in hyps[-30:]]
        self.obl.append(d)
        return r == "proved"

def model_text(m):
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            n = d.name()
            try:
                if z3.is_int_value(v): out[n] = v.as_long()
                elif z3.is_rational_value(v): out[n] = float(v.as_fraction())
                elif z3.is_algebraic_value(v): out[n] = float(v.approx(10).as_fraction())
                elif z3.is_true(v) or z3.is_false(v): out[n] = bool(z3.is_true(v))
            except Exception:
                pass
    return out

def execute(dump, spec, mode="unbounded", dims=None, budget=150, timeout=5000):
    """runs one contract; the result is a plain dictionary"""
    t0 = time.time()
    solve.STAT.update(queries=0, time=0.0, backend={})
    prog = Program(dump)
    c = Case(prog, spec, mode, dims=dims, budget=spec.get("budget", budget), specials=spec.get("specials", False), timeout=spec.get("timeout", timeout), unroll=spec.get("unroll", 6))
    r = dict(func=spec["func"], prop=spec["prop"], entry=spec["entry"], mode=mode)
    try:
        spec["fn"](c)
        r["error"] = None
    except Unsupported as e:
        r["error"] = "unsupported: %s" % e
        r["trace"] = traceback.format_exc()[-1500:]
    except (MergeFail, AttributeError, TypeError, KeyError, IndexError, AssertionError, RecursionError, z3.Z3Exception, ValueError) as e:
        r["error"] = "engine: %s: %s" % (type(e).__name__, e)
        r["trace"] = traceback.format_exc()[-2500:]
    r["obligations"] = c.obl
    r["functions"] = sorted(c.e.functions)
    r["trusted"] = sorted(c.e.trusted)
    r["loops"] = c.e.loopinfo
    r["secs"] = round(time.time() - t0, 2)
    r["solver_secs"] = round(solve.STAT["time"], 2)
    r["queries"] = solve.STAT["queries"]
    r["reach"] = c.reach
    if r["error"]:
        r["status"] = "error"
    elif any(o["status"] == "vacuous" for o in c.obl) or not c.obl:
        r["status"] = "vacuous"
    elif all(o["status"] == "proved" for o in c.obl):
        r["status"] = "proved"
    elif any(o["status"] == "refuted" for o in c.obl):
        r["status"] = "refuted"
    else:
        r["status"] = "unknown"
    return r
