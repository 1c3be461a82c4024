"""Histograms: binning, recording, statistics, densities, exports."""
from contract import *
from c_misc import fgt, fsame, Z0
from models import lnf
from sym import *

KINDS = {"single": "TimeAnalysis", "vector": "TimeVecAnalysis", "process": "ProcessAnalysis"}
CONF = ("min_time", "max_time", "bin_size", "lbin_size")
NUMS = ("num_bin", "num_lbin")
TINY = Fraction(float(1e-15))
MAXB = 1 << 40

def ln(c, x):
    return lnf(c.e, c.st, x).v

def decade(c, a, b):
    """natural logarithm of a/b"""
    return ln(c, fdiv(a, b))

def conf(c, s):
    """an accepted configuration"""
    lo, hi, w, r = (s.f(n).v for n in CONF)
    return [fle(F(TINY), lo), flt(lo, hi), fgt(w, Z0), fgt(r, Fraction(1)), ge(s.num_bin.x, 1), ge(s.num_lbin.x, 1)]

def covered(c, s):
    """its bins cover the range"""
    lo, hi, w, r = (s.f(n).v for n in CONF)
    return [le(sub(hi.v, lo.v), mul(R(s.num_bin.x), w.v)), le(decade(c, hi, lo), mul(R(s.num_lbin.x), ln(c, r)))]

def start_of(lo):
    """the minimum a requested minimum stands for"""
    return fite(flt(lo, F(TINY)), F(TINY), lo)

def storage(s, skip=()):
    return [n for n in names(s) if n not in CONF + NUMS + tuple(skip)]

def names(s):
    return [fd["name"] for fd in s.c.p.ty[s.v.ty]["variants"][0]["fields"]]

def same_field(a, b):
    from vals import veq_syn
    return veq_syn(a.v, b.v)

def fin(*xs):
    return and_(*[x.isfin() for x in xs])

for kind, ty in KINDS.items():
    def f(c, kind=kind):
        s, lo, hi, w, r = c.load("analysis::%s::from_bin_size" % kind, ["s", "lo", "hi", "w", "r"])
        t = start_of(lo.v)
        good = and_(fge0(lo.v), fgt(w.v, Z0), fgt(r.v, Fraction(1)), fin(hi.v, w.v, r.v), flt(t, hi.v))
        for o in c.run():
            q = o.now("s")
            o.goal("rejects exactly what cannot be binned", iff(o.err(), not_(good)))
            o.goal("error code", implies(o.err(), o.code("InvalidArgumentInput")))
            o.goal("nothing changes on error", and_(*[fsame(q.f(n).v, s.f(n).v) for n in CONF] + [eq(q.f(n).x, s.f(n).x) for n in NUMS]), [o.err()])
            o.goal("storage untouched", all(same_field(q.f(n), s.f(n)) for n in storage(s)))
            h = [o.ok()]
            o.goal("range and widths as requested", and_(fsame(q.min_time.v, t), fsame(q.max_time.v, hi.v), fsame(q.bin_size.v, w.v), fsame(q.lbin_size.v, r.v)), h)
            o.goal("at least one bin of each kind", and_(ge(q.num_bin.x, 1), ge(q.num_lbin.x, 1)), h)
            o.goal("linear bins cover the range", covered(c, q)[0], h + [le(q.num_bin.x, MAXB)])
            o.goal("logarithmic bins cover the range", covered(c, q)[1], h + [le(q.num_lbin.x, MAXB)])
    contract("C19", ty + "::update_from_bin_size", "analysis::%s::from_bin_size" % kind, specials=True)(f)
    def f(c, kind=kind):
        s, lo, hi, n = c.load("analysis::%s::from_num_bin" % kind, ["s", "lo", "hi", "n"])
        t = start_of(lo.v)
        good = and_(fge0(lo.v), ge(n.x, 10), fin(hi.v), flt(t, hi.v))
        for o in c.run():
            q = o.now("s")
            o.goal("rejects exactly what cannot be binned", iff(o.err(), not_(good)))
            o.goal("error code", implies(o.err(), o.code("InvalidArgumentInput")))
            o.goal("nothing changes on error", and_(*[fsame(q.f(m).v, s.f(m).v) for m in CONF] + [eq(q.f(m).x, s.f(m).x) for m in NUMS]), [o.err()])
            o.goal("storage untouched", all(same_field(q.f(m), s.f(m)) for m in storage(s)))
            h = [o.ok()]
            o.goal("range and number as requested", and_(fsame(q.min_time.v, t), fsame(q.max_time.v, hi.v), eq(q.num_bin.x, n.x), eq(q.num_lbin.x, n.x)), h)
            o.goal("configuration", and_(*conf(c, q)), h)
            o.goal("linear bins cover the range exactly", eq(sub(q.max_time.x, q.min_time.x), mul(R(n.x), q.bin_size.x)), h)
            o.goal("logarithmic bins cover the range exactly", eq(decade(c, q.max_time.v, q.min_time.v), mul(R(n.x), ln(c, q.lbin_size.v))), h)
    contract("C19", ty + "::update_from_num_bin", "analysis::%s::from_num_bin" % kind, specials=True)(f)
    def f(c, kind=kind):
        s, t = c.load("analysis::%s::bin_pos" % kind, ["s", "t"])
        c.pre(*conf(c, s) + covered(c, s)[:1])
        lo, hi, w, r = (s.f(n).v for n in CONF)
        for o in c.run():
            y = o.ret.isv("Some")
            o.goal("a bin exactly within the range", iff(y, and_(fle(lo, t.v), fle(t.v, hi))))
            if o.ret.pay("Some") is None: continue
            i = o.ret.pay("Some").x
            d = sub(t.x, lo.v)
            last = eq(i, sub(s.num_bin.x, 1))
            o.goal("an allocated bin", and_(le(0, i), lt(i, s.num_bin.x)), [y])
            o.goal("the bin whose interval contains it", and_(le(mul(R(i), w.v), d), or_(lt(d, mul(add(R(i), 1), w.v)), and_(last, le(d, mul(add(R(i), 1), w.v))))), [y])
    contract("C19", ty + "::bin_pos", "analysis::%s::bin_pos" % kind)(f)
    def f(c, kind=kind):
        s, t = c.load("analysis::%s::lbin_pos" % kind, ["s", "t"])
        c.pre(*conf(c, s) + covered(c, s)[1:])
        lo, hi, w, r = (s.f(n).v for n in CONF)
        for o in c.run():
            y = o.ret.isv("Some")
            o.goal("a bin exactly within the range", iff(y, and_(fle(lo, t.v), fle(t.v, hi))))
            if o.ret.pay("Some") is None: continue
            i = o.ret.pay("Some").x
            d, l = decade(c, t.v, lo), ln(c, r)
            last = eq(i, sub(s.num_lbin.x, 1))
            o.goal("an allocated bin", and_(le(0, i), lt(i, s.num_lbin.x)), [y])
            o.goal("the bin whose interval contains it", and_(le(mul(R(i), l), d), or_(lt(d, mul(add(R(i), 1), l)), and_(last, le(d, mul(add(R(i), 1), l))))), [y])
    contract("C19", ty + "::lbin_pos", "analysis::%s::lbin_pos" % kind)(f)

def fge0(x):
    return fle(F(Z0), x)

for kind, ty in KINDS.items():
    def f(c, kind=kind):
        lo, hi, n = c.load("analysis::%s::convert" % kind, ["lo", "hi", "n"])
        t = start_of(lo.v)
        good = and_(fge0(lo.v), ge(n.x, 10), fin(hi.v), flt(t, hi.v))
        for o in c.run():
            o.goal("rejects exactly what cannot be binned", iff(o.err(), not_(good)))
            o.goal("error code", implies(o.err(), o.code("InvalidArgumentInput")))
            p = o.okv()
            if p is None: continue
            w, r = p.f(0), p.f(1)
            h = [o.ok()]
            o.goal("positive width, ratio above one", and_(fgt(w.v, Z0), fgt(r.v, Fraction(1))), h)
            o.goal("linear bins divide the range", eq(sub(hi.x, t.v), mul(R(n.x), w.x)), h)
            o.goal("logarithmic bins divide the range", eq(decade(c, hi.v, t), mul(R(n.x), ln(c, r.v))), h)
    contract("C19", ty + "::convert_num_bin_to_bin_size", "analysis::%s::convert" % kind, specials=True)(f)

# ------------------------------------------------------------------ storage
LIN = {"single": ("hist", "count"), "process": ("mean", "stddev", "count"), "vector": ("hist", "count")}
LOG = {"single": ("lhist", "lcount"), "process": ("log_mean", "log_stddev", "lcount"), "vector": ("lhist", "lcount")}
SUMS = {"single": ("mean", "stddev"), "process": ("long_term_mean", "long_term_stddev"), "vector": ("means", "stddevs")}
NUMBER = {"single": "ensemble", "process": "tot_point", "vector": "ensemble"}
CAP = 1 << 62

def shape(kind, s):
    """storage as allocated for the configuration"""
    g = []
    for fs, n in ((LIN[kind], s.num_bin.x), (LOG[kind], s.num_lbin.x)):
        for name in fs:
            v = s.f(name)
            if kind == "vector":
                g.append(eq(v.len, s.num_var.x))
                i = fresh_int("row")
                g.append(QFact(0, s.num_var.x, i, eq(v.at(i).len, n)))
            else:
                g.append(eq(v.len, n))
    if kind == "vector":
        g += [eq(s.f(n).len, s.num_var.x) for n in SUMS[kind]]
    return g

def counts(kind):
    return ("count", "lcount")

def is_shape(c, kind, o, q, ref=None):
    """storage has the shape of the configuration after the call"""
    r = ref or q
    for fs, n in ((LIN[kind], r.num_bin.x), (LOG[kind], r.num_lbin.x)):
        for name in fs:
            v = q.f(name)
            if kind == "vector":
                o.goal("%s has a row per variable" % name, eq(v.len, r.num_var.x))
                i, h = c.idx("row", 0, r.num_var.x)
                o.goal("%s rows have a cell per bin" % name, eq(v.at(i).len, n), h)
            else:
                o.goal("%s has a cell per bin" % name, eq(v.len, n))
    if kind == "vector":
        for n in SUMS[kind]:
            o.goal("%s per variable" % n, eq(q.f(n).len, r.num_var.x))

def cells(c, kind, q, names):
    """arbitrary cells of the named stores: (name, cell, hypotheses)"""
    for name in names:
        v = q.f(name)
        if kind == "vector":
            i, h = c.idx("row", 0, v.len)
            row = v.at(i)
            j, h2 = c.idx("bin", 0, row.len)
            yield name, row.at(j), h + h2
        else:
            j, h = c.idx("bin", 0, v.len)
            yield name, v.at(j), h

def zero(v):
    return feq(v.v, F(Z0)) if isinstance(v.v, F) else eq(v.x, 0)

def cleared(c, kind, o, q, every):
    """no sample recorded"""
    o.goal("no samples counted", and_(*[eq(q.f(n).x, 0) for n in ("ensemble", "tot_point") if q.has(n)]))
    for n in SUMS[kind]:
        if kind == "vector":
            i, h = c.idx("row", 0, q.f(n).len)
            o.goal("%s zero" % n, zero(q.f(n).at(i)), h)
        else:
            o.goal("%s zero" % n, zero(q.f(n)))
    st = [n for n in LIN[kind] + LOG[kind] if every or kind == "process" or n in counts(kind)]
    for n, v, h in cells(c, kind, q, st):
        o.goal("%s zero in every cell" % n, zero(v), h)

def same_conf(q, s):
    return and_(*[fsame(q.f(n).v, s.f(n).v) for n in CONF] + [eq(q.f(n).x, s.f(n).x) for n in NUMS + (("num_var",) if q.has("num_var") else ())])

for kind, ty in KINDS.items():
    def f(c, kind=kind):
        (s,) = c.load("analysis::%s::allocate" % kind, ["s"])
        c.pre(le(s.num_bin.x, MAXB), le(s.num_lbin.x, MAXB))
        if kind == "vector": c.pre(le(s.num_var.x, MAXB))
        for o in c.run():
            q = o.now("s")
            is_shape(c, kind, o, q)
            o.goal("configuration and counters untouched", and_(same_conf(q, s), *[eq(q.f(n).x, s.f(n).x) for n in ("ensemble", "tot_point") if q.has(n)]))
            for n, v, h in cells(c, kind, q, LIN[kind] + LOG[kind]):
                o.goal("%s zero in every cell" % n, zero(v), h)
    contract("C19", ty + "::allocate_vectors", "analysis::%s::allocate" % kind, also=["C20"])(f)
    def f(c, kind=kind):
        (s,) = c.load("analysis::%s::clear" % kind, ["s"])
        c.pre(le(s.num_bin.x, MAXB), le(s.num_lbin.x, MAXB), *shape(kind, s))
        if kind == "vector": c.pre(le(s.num_var.x, MAXB))
        for o in c.run():
            q = o.now("s")
            is_shape(c, kind, o, q)
            o.goal("configuration untouched", same_conf(q, s))
            cleared(c, kind, o, q, False)
    contract("C20", ty + "::clear", "analysis::%s::clear" % kind, specials=True)(f)
    def f(c, kind=kind):
        c.load("analysis::%s::default" % kind, [])
        for o in c.run():
            q = o.ret
            is_shape(c, kind, o, q)
            o.goal("configuration", and_(*conf(c, q)))
            o.goal("linear bins cover the range", covered(c, q)[0])
            o.goal("logarithmic bins cover the range", covered(c, q)[1])
            cleared(c, kind, o, q, True)
    contract("C19", ty + "::default", "analysis::%s::default" % kind, also=["C20"])(f)

# ---------------------------------------------------------------- recording
def in_bin(s, x, i):
    lo, hi, w, r = (s.f(n).v for n in CONF)
    d = sub(x, lo.v)
    return and_(le(lo.v, x), le(x, hi.v), le(mul(R(i), w.v), d), or_(lt(d, mul(add(R(i), 1), w.v)), and_(eq(i, sub(s.num_bin.x, 1)), le(d, mul(add(R(i), 1), w.v)))))

def in_lbin(c, s, x, i):
    lo, hi, w, r = (s.f(n).v for n in CONF)
    d, l = decade(c, F(x), lo), ln(c, r)
    return and_(le(lo.v, x), le(x, hi.v), le(mul(R(i), l), d), or_(lt(d, mul(add(R(i), 1), l)), and_(eq(i, sub(s.num_lbin.x, 1)), le(d, mul(add(R(i), 1), l)))))

def binned(c, s, x, log, i):
    return in_lbin(c, s, x, i) if log else in_bin(s, x, i)

def small(s, names):
    """counters far from the end of their range"""
    return [lt(s.f(n).x, CAP) for n in names if s.has(n)]

def small_cells(s, names):
    r = []
    for n in names:
        i = fresh_int("cell")
        r.append(QFact(0, s.f(n).len, i, lt(s.f(n).at(i).x, CAP)))
    return r

BIN = {False: uf("bin_pos", RS, IS), True: uf("lbin_pos", RS, IS)}

def use_bins(c, s):
    """bin_pos and lbin_pos by their contracts (proved above)"""
    from vals import veq_syn
    def by(log):
        def f(cx):
            q = V(c, cx.st, cx.args[0])
            for n in CONF + NUMS:
                if not veq_syn(q.f(n).v, s.f(n).v):
                    raise Unsupported("binning with another configuration")
            x = cx.args[1]
            i = BIN[log](Z(x.v))
            n = s.num_lbin.x if log else s.num_bin.x
            def some(st):
                st.assume(and_(le(0, i), lt(i, n)))
                return cx.option(i)
            return cx.fork(and_(fle(s.min_time.v, x), fle(x, s.max_time.v)), some, lambda st: cx.option())
        return f
    c.e.summaries[r"analysis::\w+ as .*analysis::Bin>::bin_pos$"] = by(False)
    c.e.summaries[r"analysis::\w+ as .*analysis::Bin>::lbin_pos$"] = by(True)

@contract("C19", "TimeAnalysis::add_ensemble", "analysis::add_single", also=["C20"])
def _(c):
    s, x = c.load("analysis::add_single", ["s", "x"])
    c.pre(*conf(c, s) + covered(c, s) + shape("single", s) + small(s, ["ensemble"]) + small_cells(s, counts("single")))
    for o in c.run():
        q = o.now("s")
        o.goal("ensemble counted once", eq(q.ensemble.x, add(s.ensemble.x, 1)))
        o.goal("sample added to the sum", eq(q.mean.x, add(s.mean.x, x.x)))
        o.goal("square added to the sum of squares", eq(q.stddev.x, add(s.stddev.x, mul(x.x, x.x))))
        o.goal("configuration untouched", same_conf(q, s))
        is_shape(c, "single", o, q, s)
        for n, log in (("count", False), ("lcount", True)):
            i, h = c.idx("bin", 0, s.f(n).len)
            o.goal("%s: one in exactly the bin that contains the sample" % n, eq(q.f(n).at(i).x, add(s.f(n).at(i).x, ite(binned(c, s, x.x, log, i), 1, 0))), h)
        o.goal("densities untouched", all(same_field(q.f(n), s.f(n)) for n in ("hist", "lhist")))

@contract("C19", "ProcessAnalysis::add_pair", "analysis::add_pair", also=["C20"])
def _(c):
    s, p = c.load("analysis::add_pair", ["s", "p"])
    t, x = p.f(0), p.f(1)
    c.pre(*conf(c, s) + covered(c, s) + shape("process", s) + small(s, ["tot_point"]) + small_cells(s, counts("process")))
    for o in c.run():
        q = o.now("s")
        o.goal("point counted once", and_(eq(q.tot_point.x, add(s.tot_point.x, 1)), eq(q.ensemble.x, s.ensemble.x)))
        o.goal("value added to the sum", eq(q.long_term_mean.x, add(s.long_term_mean.x, x.x)))
        o.goal("square added to the sum of squares", eq(q.long_term_stddev.x, add(s.long_term_stddev.x, mul(x.x, x.x))))
        o.goal("configuration untouched", same_conf(q, s))
        is_shape(c, "process", o, q, s)
        for n, m, d, log in (("count", "mean", "stddev", False), ("lcount", "log_mean", "log_stddev", True)):
            i, h = c.idx("bin", 0, s.f(n).len)
            b = binned(c, s, t.x, log, i)
            o.goal("%s: one in exactly the bin that contains the time" % n, eq(q.f(n).at(i).x, add(s.f(n).at(i).x, ite(b, 1, 0))), h)
            o.goal("%s: value added in exactly that bin" % m, eq(q.f(m).at(i).x, ite(b, add(s.f(m).at(i).x, x.x), s.f(m).at(i).x)), h)
            o.goal("%s: square added in exactly that bin" % d, eq(q.f(d).at(i).x, ite(b, add(s.f(d).at(i).x, mul(x.x, x.x)), s.f(d).at(i).x)), h)

@contract("C19", "ProcessAnalysis::add_ensemble", "analysis::add_ensemble", also=["C20"])
def _(c):
    (s,) = c.load("analysis::add_ensemble", ["s"])
    c.pre(*small(s, ["ensemble"]))
    for o in c.run():
        q = o.now("s")
        o.goal("ensemble counted once", eq(q.ensemble.x, add(s.ensemble.x, 1)))
        o.goal("nothing else changes", and_(same_conf(q, s), all(same_field(q.f(n), s.f(n)) for n in storage(s, ["ensemble"]))))

@contract("C19", "TimeVecAnalysis::add_ensemble", "analysis::add_vector", also=["C20"])
def _(c):
    s, xs = c.load("analysis::add_vector", ["s", "xs"])
    c.pre(*conf(c, s) + covered(c, s) + shape("vector", s) + small(s, ["ensemble"]))
    for n, log in (("count", False), ("lcount", True)):
        # every count is small; used for the cells the sample falls into
        i = fresh_int("row")
        c.pre(QFact(0, s.num_var.x, i, lt(s.f(n).at(i).at(BIN[log](Z(xs.at(i).x))).x, CAP)))
    c.pre(gt(s.num_var.x, 0))
    use_bins(c, s)
    outs, pans = c.run_panics()
    for o in pans:
        c.goal("panics only for a sample of another length", not_(eq(xs.len, s.num_var.x)), o.st.pc)
    c.reach += len(outs)
    for o in outs:
        q = o.now("s")
        o.goal("a sample of another length is refused", eq(xs.len, s.num_var.x))
        o.goal("ensemble counted once", eq(q.ensemble.x, add(s.ensemble.x, 1)))
        o.goal("configuration untouched", same_conf(q, s))
        is_shape(c, "vector", o, q, s)
        r, hr = c.idx("row", 0, s.num_var.x)
        x = xs.at(r).x
        o.goal("sample added to its sum", eq(q.means.at(r).x, add(s.means.at(r).x, x)), hr)
        o.goal("square added to its sum of squares", eq(q.stddevs.at(r).x, add(s.stddevs.at(r).x, mul(x, x))), hr)
        for n, log, num in (("count", False, s.num_bin.x), ("lcount", True, s.num_lbin.x)):
            i, h = c.idx("bin", 0, num)
            b = and_(le(s.min_time.x, x), le(x, s.max_time.x), eq(i, BIN[log](Z(x))))
            o.goal("%s: one in exactly the bin of the sample" % n, eq(q.f(n).at(r).at(i).x, add(s.f(n).at(r).at(i).x, ite(b, 1, 0))), hr + h)

@contract("C19", "TimeAnalysis::bin_pos (bins are disjoint)", "analysis::single::bin_pos", also=["C20"])
def _(c):
    s, t = c.load("analysis::single::bin_pos", ["s", "t"])
    c.pre(*conf(c, s) + covered(c, s))
    i, j = fresh_int("i"), fresh_int("j")
    for log in (False, True):
        n = s.num_lbin.x if log else s.num_bin.x
        h = [le(0, i), lt(i, j), lt(j, n), binned(c, s, t.x, log, i), binned(c, s, t.x, log, j)]
        c.goal("no sample lies in two %s bins" % ("logarithmic" if log else "linear"), False, c.st.pc + h)
    c.reach += 1

# ------------------------------------------------------------------ drawing
def is_mean(o, got, total, n, h=()):
    o.goal("mean of the samples", eq(mul(got.x, R(n)), total.x), h)

def is_stddev(o, got, mean, squares, n, h=()):
    """population standard deviation; the variance is not negative for any samples"""
    var = sub(rdiv(squares.x, R(n)), mul(mean.x, mean.x))
    h = list(h) + [ge(var, Fraction(0))]
    o.goal("standard deviation is a number", not_(got.v.nan), list(h)[:-1])
    o.goal("standard deviation not negative", ge(got.x, Fraction(0)), h)
    o.goal("square is the mean square less the squared mean", eq(mul(got.x, got.x), var), h)

def width(s, i):
    """width of a logarithmic bin"""
    return mul(mul(s.min_time.x, POWI(Z(s.lbin_size.x), Z(i))), sub(s.lbin_size.x, Fraction(1)))

def densities(c, kind, o, q, s, row, hr):
    n = R(s.ensemble.x)
    for hist, cnt, log, num in (("hist", "count", False, s.num_bin.x), ("lhist", "lcount", True, s.num_lbin.x)):
        i, h = c.idx("bin", 0, num)
        d, k = row(q.f(hist)).at(i), row(s.f(cnt)).at(i)
        wd = width(s, i) if log else s.bin_size.x
        o.goal("%s: density times width times number of samples is the count" % hist, eq(mul(mul(d.x, wd), n), R(k.x)), hr + h)
        o.goal("%s untouched" % cnt, eq(row(q.f(cnt)).at(i).x, k.x), hr + h)

@contract("C21", "TimeAnalysis::draw", "analysis::single::draw", also=["C20"])
def _(c):
    (s,) = c.load("analysis::single::draw", ["s"])
    c.pre(*conf(c, s) + shape("single", s) + [ge(s.ensemble.x, 1)])
    for o in c.run():
        q = o.now("s")
        is_mean(o, q.mean, s.mean, s.ensemble.x)
        is_stddev(o, q.stddev, q.mean, s.stddev, s.ensemble.x)
        densities(c, "single", o, q, s, lambda v: v, [])
        is_shape(c, "single", o, q, s)
        o.goal("configuration and count untouched", and_(same_conf(q, s), eq(q.ensemble.x, s.ensemble.x)))

@contract("C21", "TimeVecAnalysis::draw", "analysis::vector::draw", also=["C20"])
def _(c):
    (s,) = c.load("analysis::vector::draw", ["s"])
    c.pre(*conf(c, s) + shape("vector", s) + [ge(s.ensemble.x, 1)])
    for o in c.run():
        q = o.now("s")
        r, hr = c.idx("row", 0, s.num_var.x)
        is_mean(o, q.means.at(r), s.means.at(r), s.ensemble.x, hr)
        is_stddev(o, q.stddevs.at(r), q.means.at(r), s.stddevs.at(r), s.ensemble.x, hr)
        densities(c, "vector", o, q, s, lambda v: v.at(r), hr)
        is_shape(c, "vector", o, q, s)
        o.goal("configuration and count untouched", and_(same_conf(q, s), eq(q.ensemble.x, s.ensemble.x)))

@contract("C21", "ProcessAnalysis::draw", "analysis::process::draw", also=["C20"])
def _(c):
    (s,) = c.load("analysis::process::draw", ["s"])
    c.pre(*conf(c, s) + shape("process", s) + [ge(s.tot_point.x, 1)])
    for o in c.run():
        q = o.now("s")
        is_mean(o, q.long_term_mean, s.long_term_mean, s.tot_point.x)
        is_stddev(o, q.long_term_stddev, q.long_term_mean, s.long_term_stddev, s.tot_point.x)
        for n, m, d, num in (("count", "mean", "stddev", s.num_bin.x), ("lcount", "log_mean", "log_stddev", s.num_lbin.x)):
            i, h = c.idx("bin", 0, num)
            k = s.f(n).at(i).x
            h = h + [ge(k, 1)]
            is_mean(o, q.f(m).at(i), s.f(m).at(i), k, h)
            is_stddev(o, q.f(d).at(i), q.f(m).at(i), s.f(d).at(i), k, h)
            o.goal("%s untouched" % n, eq(q.f(n).at(i).x, k), h)
        is_shape(c, "process", o, q, s)
        o.goal("configuration and counts untouched", and_(same_conf(q, s), eq(q.ensemble.x, s.ensemble.x), eq(q.tot_point.x, s.tot_point.x)))

# ------------------------------------------------------------------ exports
class Line(Exception):
    pass

def tokens(c, ps, i=None):
    """a line as numbers and what separates them; a repetition of numbers is
    given for one arbitrary round"""
    out = []
    for p in ps:
        if isinstance(p, str):
            if p.strip(" \t\n") or "\r" in p:
                raise Line("text between the numbers")
            if p:
                out.append(("sep", p))
        elif p[0] == "fmt":
            kind, ty, fill, align, bits = p[1]
            v, width, prec = p[2].fs
            if kind not in ("display", "lower_exp", "upper_exp", "debug") or not (same(width, -1) or fill == " "):
                raise Line("not a number: %s" % (p[1],))
            out.append(("num", ty, v, prec))
        elif p[0] == "disp":
            out.append(("num", p[1], p[2], -1))
        elif p[0] == "for":
            out.append(("rep", p[2]))
        else:
            raise Line("part of a line: %s" % p[0])
    return out

def separated(toks):
    """numbers never touch, and the line ends where its only line break is"""
    flat_ = []
    for t in toks:
        if t[0] == "rep":
            flat_ += t[2] + t[2]
        else:
            flat_.append(t)
    last = None
    for t in flat_:
        if t[0] == "num" and last == "num":
            return False
        last = t[0]
    text = [t[1] if t[0] == "sep" else "x" for t in flat_]
    s = "".join(text)
    return s.endswith("\n") and s.count("\n") == 1

def check_line(c, o, what, ps, i, hyps, values, prec):
    """values(i): the numbers a line of bin i has to carry: single ones, and last
    possibly (n, one round) for a repetition"""
    try:
        toks = tokens(c, ps)
        for j, t in enumerate(toks):
            if t[0] == "rep":
                v = fresh_int("var")
                toks[j] = ("rep", t[1], tokens(c, t[1].f(v).ps), v)
    except Line as x:
        o.goal("%s: a line is numbers and blanks (%s)" % (what, x), False, hyps)
        return
    o.goal("%s: the numbers of a line are separated, the line ends with a line break" % what, separated(toks), hyps)
    want = values(i)
    def number(t, w, hy, k):
        o.goal("%s: number %s of a line" % (what, k), and_(eq(num(t[2]), w), or_(eq(t[3], -1), eq(t[3], prec))), hyps + hy)
    def num(v):
        return v.v if isinstance(v, F) else v
    def finite(v):
        return v.isfin() if isinstance(v, F) else True
    got = [t for t in toks if t[0] != "sep"]
    k = 0
    while want:
        w = want.pop(0)
        if isinstance(w, tuple):
            n, one = w
            if got and got[0][0] == "rep":
                _, rep, ts, v = got.pop(0)
                o.goal("%s: one group of numbers per variable" % what, and_(eq(rep.lo, 0), eq(rep.hi, n)), hyps)
                hv = [le(rep.lo, v), lt(v, rep.hi)]
                ts = [t for t in ts if t[0] == "num"]
                ws = one(v)
                o.goal("%s: numbers per variable" % what, len(ts) == len(ws), hyps)
                for t, x in zip(ts, ws):
                    number(t, x, hv, "%d of a variable" % k); k += 1
                continue
            m = None
            for cand in range(0, 6):
                from solve import valid
                if valid(o.st.pc + hyps, eq(n, cand)):
                    m = cand
            if m is None:
                o.goal("%s: one group of numbers per variable" % what, False, hyps)
                return
            want = [x for v in range(m) for x in one(v)] + want
            continue
        if not got or got[0][0] != "num":
            o.goal("%s: a number is missing in a line" % what, False, hyps)
            return
        t = got.pop(0)
        number(t, w, [], str(k)); k += 1
    o.goal("%s: no further numbers in a line" % what, not got, hyps)

def check_export(c, o, what, txt, n, present, values, prec):
    """one line per bin that is present, in the order of the bins, and nothing else"""
    from solve import valid
    ps = list(txt.ps)
    if len(ps) == 1 and not isinstance(ps[0], str) and ps[0][0] == "for":
        rep = ps[0][2]
        o.goal("%s: all bins in order" % what, and_(eq(rep.lo, 0), eq(rep.hi, n)))
        i = fresh_int("bin")
        h = [le(0, i), lt(i, n)]
        body = list(rep.f(i).ps)
        if len(body) == 1 and not isinstance(body[0], str) and body[0][0] == "if":
            cond, inner = body[0][2].fs
            o.goal("%s: a line exactly for the bins that received samples" % what, iff(cond, present(i)), h)
            check_line(c, o, what, inner.ps, i, h + [cond], values, prec)
        else:
            o.goal("%s: a line exactly for the bins that received samples" % what, present(i) if body else not_(present(i)), h)
            if body:
                check_line(c, o, what, body, i, h, values, prec)
        return
    # a concrete number of bins
    m = [k for k in range(0, 8) if valid(o.st.pc, eq(n, k))]
    if not m:
        raise Unsupported("text of an export")
    for i in range(m[0]):
        if ps and not isinstance(ps[0], str) and ps[0][0] == "if":
            cond, inner = ps.pop(0)[2].fs
            o.goal("%s: a line exactly for the bins that received samples" % what, iff(cond, present(i)))
            check_line(c, o, what, inner.ps, i, [cond], values, prec)
        elif valid(o.st.pc, not_(present(i))):
            continue
        else:
            o.goal("%s: a line exactly for the bins that received samples" % what, present(i))
            line = []
            while ps and not (isinstance(ps[0], str) and "\n" in ps[0]):
                line.append(ps.pop(0))
            if ps:
                a, b = ps.pop(0).split("\n", 1)
                line.append(a + "\n")
                if b:
                    ps.insert(0, b)
            check_line(c, o, what, line, i, [], values, prec)
    o.goal("%s: nothing after the last bin" % what, not ps)

def center(s, i, log):
    """middle of a bin: arithmetic for the equal bins, geometric for the others"""
    if log:
        return mul(mul(s.min_time.x, POWI(Z(s.lbin_size.x), Z(i))), SQRT(Z(s.lbin_size.x)))
    return add(s.min_time.x, mul(add(R(i), Fraction(1, 2)), s.bin_size.x))

for kind, ty in KINDS.items():
    for entry, fn, log in (("export_distribution", "export_distribution", False), ("export_log", "export_log_scaled_distribution", True)):
        def f(c, kind=kind, entry=entry, log=log):
            import vals
            vals.STRIF[0] = True
            try:
                s, p, w = c.load("analysis::%s::%s" % (kind, entry), ["s", "p", "w"])
                c.e.store(c.st, c.argv["w"], Agg(c.e.load(c.st, c.argv["w"]).ty, [Str([])]))
                c.pre(*conf(c, s) + shape(kind, s) + [le(p.x, 65535)])
                fs = (LOG if log else LIN)[kind]
                n = (s.num_lbin if log else s.num_bin).x
                for o in c.run():
                    o.goal("the export succeeds", o.ok())
                    txt = o.now("w").f("text").v
                    if kind == "vector":
                        val, cnt = s.f(fs[0]), s.f(fs[1])
                        def present(i):
                            return any_range(lambda v: ge(cnt.at(v).at(i).x, 1), 0, s.num_var.x)
                        def values(i):
                            return [center(s, i, log), (s.num_var.x, lambda v: [cnt.at(v).at(i).x, val.at(v).at(i).x])]
                    else:
                        cnt = s.f(fs[-1])
                        def present(i):
                            return ge(cnt.at(i).x, 1)
                        def values(i):
                            return [center(s, i, log), cnt.at(i).x] + [s.f(x).at(i).x for x in fs[:-1]]
                    check_export(c, o, entry, txt, n, present, values, p.x)
            finally:
                vals.STRIF[0] = False
        contract("C26", "%s::%s" % (ty, fn), "analysis::%s::%s" % (kind, entry))(f)
