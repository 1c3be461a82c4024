"""Trusted contracts of standard-library, rand and allocator functions."""
import re
from vals import *
from sym import *
import mir as _m
from solve import feasible, valid

class Many:
    def __init__(self, items): self.items = items
class Tail:
    def __init__(self, inst, args, fname=""): self.inst = inst; self.args = args; self.fname = fname

class Cx:
    def __init__(self, e, st, inst, args, fname):
        self.e = e; self.st = st; self.inst = inst; self.args = args; self.fname = fname
        self.extra = []
    def panic(self, msg):
        raise _m.Panic(msg)
    def guard(self, cond, msg):
        c = self.e.simp(self.st, cond)
        if c is True:
            return
        if c is False:
            raise _m.Panic(msg)
        s2 = self.st.copy(); s2.assume(not_(c))
        self.extra.append(("panic", s2, msg))
        self.st.assume(c)
    def rty(self):
        """declared return type of the callee, if its body is exported"""
        b = self.inst.get("body")
        if b:
            return b["locals"][0]
        return None
    def option(self, v=None):
        t = self.rty()
        if t is None:
            t = opt_ty(self.e)
        if v is None:
            return Enum(t, 0, {0: ()})
        return Enum(t, 1, {1: (v,)})
    def fork(self, cond, some, none):
        """two continuations by a condition; each is a function of the state"""
        c = self.e.simp(self.st, cond)
        items = []
        if c is not False:
            s1 = self.st if c is True else self.st.copy()
            if c is not True: s1.assume(c)
            items.append(("ok", s1, some(s1)))
        if c is not True:
            s2 = self.st
            if c is not False: s2 = self.st.copy(); s2.assume(not_(c))
            items.append(("ok", s2, none(s2)))
        return Many(items)

def opt_ty(e):
    for k, t in e.p.ty.items():
        if t["k"] == "adt" and t["name"].endswith("option::Option"):
            return k
    raise Unsupported("no Option type")

TABLE = []
def model(rx):
    def d(f):
        TABLE.append((re.compile(rx), f))
        return f
    return d

PARTIAL = set()
def when(g):
    """a model used only for calls that satisfy a condition; others execute the callee's body"""
    def d(f):
        f.applies = g
        PARTIAL.add(f)
        return f
    return d

_memo = {}
def lookup(e, inst):
    if inst["id"] in e.overrides:
        return e.overrides[inst["id"]]
    for rx, f in e.summaries.items():
        if re.search(rx, inst["name"]):
            return f
    k = (inst["def"], inst["crate"], inst["name"])
    if k not in _memo:
        r = None
        if inst["crate"] not in ("moledyn", "vharness"):
            for rx, f in TABLE:
                if rx.search(inst["def"]) or rx.search(inst["name"]):
                    r = f; break
            if r is None and inst.get("intrinsic"):
                r = INTR.get(inst["intrinsic"])
        _memo[k] = r
    return _memo[k]

# ------------------------------------------------------------------- panics
@model(r"^(core|std)::(panicking::|rt::)(panic|begin_panic|panic_fmt|panic_display|panic_nounwind|panic_str|panic_explicit|unreachable_display|assert_failed|panic_const|panic_bounds_check)|slice_index_fail|slice_(start|end)_index_.*fail|unwrap_failed|expect_failed|panic_fmt$|panic_const_|handle_alloc_error|assert_failed")
def m_panic(cx):
    msg = cx.inst["name"].split("::")[-1]
    a = cx.args[0] if cx.args else None
    if isinstance(a, Str) and a.lit() is not None:
        msg = a.lit()
    raise _m.Panic(msg)

@model(r"precondition_check")
def m_unit(cx):
    return Agg(None, [])

# --------------------------------------------------------------------- fmt
@model(r"^(std|core)::fmt::Arguments::<'a>::(new|new_const|new_v1|new_v1_formatted|from_str|from_str_nonconst)$")
def m_args(cx):
    return Opaque("fmtargs", list(cx.args))

@model(r"fmt::rt::Argument::<'_>::(new_\w+|from_usize|none)$")
def m_arg(cx):
    kind = cx.inst["def"].split("::")[-1]
    return Opaque("fmtarg", (kind, cx.args[0] if cx.args else None, cx.inst))

# -------------------------------------------------------------------- boxes
@model(r"^std::boxed::Box::<T>::new$|^std::boxed::Box::<T>::pin$")
def m_box_new(cx):
    return cx.e.alloc(cx.st, cx.args[0])

@model(r"^<std::boxed::Box<T.*> as std::(ops::Deref|convert::AsRef<T>|borrow::Borrow<T>)>::")
def m_box_deref(cx):
    return cx.e.load(cx.st, cx.args[0])

@model(r"^<std::boxed::Box<T, A> as std::clone::Clone>::clone$")
def m_box_clone(cx):
    b = cx.e.load(cx.st, cx.args[0])
    return cx.e.alloc(cx.st, cx.e.load(cx.st, b))

# --------------------------------------------------------------------- vecs
def vec_of(cx, i=0):
    v = cx.e.load(cx.st, cx.args[i])
    if not isinstance(v, Seq):
        raise Unsupported("expected a sequence, got %r" % type(v))
    return v

@model(r"^std::vec::Vec::<T>::(new|with_capacity)$|^std::vec::Vec::<T, A>::new_in$|^<std::vec::Vec<T> as std::default::Default>::default$")
def m_vec_new(cx):
    t = cx.rty()
    return Seq(t, cx.e.p.targ(t), 0, NList([]))

@model(r"^std::vec::from_elem$")
def m_from_elem(cx):
    t = cx.rty()
    v, n = cx.args
    if isinstance(n, int):
        if n > 100000:
            raise Unsupported("huge vector")
        return Seq(t, cx.e.p.targ(t), n, NList([v] * n))
    cx.guard(le(n, _m.MAXLEN), "capacity overflow")
    return Seq(t, cx.e.p.targ(t), n, NMap(NBase(lambda i: v, ("const", id(v))), 0, n, lambda i: v))

@model(r"^std::vec::Vec::<T, A>::len$|^core::slice::<impl \[T\]>::len$")
def m_vec_len(cx):
    if isinstance(cx.args[0], Slice):
        return cx.args[0].len
    return vec_of(cx).len

@model(r"^std::vec::Vec::<T, A>::is_empty$|^core::slice::<impl \[T\]>::is_empty$")
def m_vec_isempty(cx):
    n = cx.args[0].len if isinstance(cx.args[0], Slice) else vec_of(cx).len
    return eq(n, 0)

def seq_push(cx, s, v):
    if isinstance(s.node, NList) and isinstance(s.len, int) and s.len == len(s.node.xs):
        return Seq(s.ty, s.ety, s.len + 1, NList(s.node.xs + [v]))
    return Seq(s.ty, s.ety, iz(add(s.len, 1)), NStore(s.node, s.len, v))

@model(r"^std::vec::Vec::<T, A>::push$")
def m_vec_push(cx):
    s = vec_of(cx)
    cx.e.store(cx.st, cx.args[0], seq_push(cx, s, cx.args[1]))
    return Agg(None, [])

@model(r"^std::vec::Vec::<T, A>::push_mut$")
def m_vec_push_mut(cx):
    s = vec_of(cx)
    cx.e.store(cx.st, cx.args[0], seq_push(cx, s, cx.args[1]))
    r = cx.args[0]
    return Ref(r.root, r.path + (('i', s.len),))

@model(r"^std::vec::Vec::<T, A>::pop$")
def m_vec_pop(cx):
    s = vec_of(cx); r = cx.args[0]
    def some(st):
        n = iz(sub(s.len, 1))
        x = cx.e.nread(st, s.node, n)
        nd = NList(s.node.xs[:-1]) if isinstance(s.node, NList) and isinstance(n, int) else s.node
        cx.e.store(st, r, Seq(s.ty, s.ety, n, nd))
        return cx.option(x)
    return cx.fork(gt(s.len, 0), some, lambda st: cx.option())

@model(r"^std::vec::Vec::<T, A>::clear$")
def m_vec_clear(cx):
    s = vec_of(cx)
    cx.e.store(cx.st, cx.args[0], Seq(s.ty, s.ety, 0, NList([])))
    return Agg(None, [])

@model(r"^std::vec::Vec::<T, A>::(reserve|shrink_to_fit|reserve_exact)$")
def m_vec_reserve(cx):
    return Agg(None, [])

@model(r"^std::vec::Vec::<T, A>::truncate$")
def m_vec_trunc(cx):
    s = vec_of(cx); n = cx.args[1]
    c = cx.e.simp(cx.st, lt(n, s.len))
    ln = ite(c, n, s.len)
    nd = s.node
    if isinstance(nd, NList) and isinstance(ln, int): nd = NList(nd.xs[:ln])
    cx.e.store(cx.st, cx.args[0], Seq(s.ty, s.ety, ln, nd))
    return Agg(None, [])

def seq_append(cx, s, n, f):
    """s followed by n cells, cell len + i holding f(i)"""
    if isinstance(n, int) and n <= 64:
        for i in range(n):
            s = seq_push(cx, s, f(i))
        return s
    base = s.node
    if isinstance(base, NList) and not base.xs:
        base = NBase(lambda i: f(i), ("const", id(f)))
    hi = iz(add(s.len, n))
    cx.guard(le(hi, _m.MAXLEN), "capacity overflow")
    return Seq(s.ty, s.ety, hi, NMap(base, s.len, hi, lambda i: f(iz(sub(i, s.len)))))

@model(r"^std::vec::Vec::<T, A>::(resize|resize_with)$")
def m_vec_resize(cx):
    s = vec_of(cx); n, v = cx.args[1], cx.args[2]
    r = cx.args[0]
    if cx.fname.split("::")[-1].startswith("resize_with"):
        if not isinstance(v, Fn):
            raise Unsupported("resizing with a closure")
        st = cx.st.copy()
        outs = cx.e.exec_fn(st, v.inst, [])
        if len(outs) != 1 or outs[0].kind != "ret" or len(outs[0].st.pc) != len(cx.st.pc) or isinstance(outs[0].val, (Ref, Slice)) or cx.e.p.ty[s.ety]["k"] not in ("int", "float", "bool", "char"):
            raise Unsupported("resizing with a function")
        v = outs[0].val
    else:
        clone_ok(cx.e, s.ety)
    def less(st):
        nd = NList(s.node.xs[:n]) if isinstance(s.node, NList) and isinstance(n, int) else s.node
        cx.e.store(st, r, Seq(s.ty, s.ety, n, nd))
        return Agg(None, [])
    def more(st):
        cx.e.store(st, r, seq_append(cx, s, iz(sub(n, s.len)), lambda i: v))
        return Agg(None, [])
    return cx.fork(le(n, s.len), less, more)

@model(r"^std::vec::Vec::<T, A>::extend_from_slice$")
def m_extend_slice(cx):
    s = vec_of(cx)
    clone_ok(cx.e, s.ety)
    b = cx.e.as_slice(cx.st, cx.args[1]); o = cx.e.slice_seq(cx.st, b)
    st = cx.st
    def cell(i):
        return cx.e.nread(st if isinstance(i, int) else None, o.node, iz(add(b.start, i)))
    cx.e.store(cx.st, cx.args[0], seq_append(cx, s, b.len, cell))
    return Agg(None, [])

@model(r"^core::slice::<impl \[T\]>::split_at(_mut)?(_unchecked)?$")
def m_split_at(cx):
    sl = cx.e.as_slice(cx.st, cx.args[0]); n = cx.args[1]
    cx.guard(le(n, sl.len), "mid > len")
    return Agg(cx.rty(), [Slice(sl.root, sl.path, sl.start, n), Slice(sl.root, sl.path, iz(add(sl.start, n)), iz(sub(sl.len, n)))])

@model(r"^core::slice::<impl \[T\]>::reverse$")
def m_reverse(cx):
    sl = cx.e.as_slice(cx.st, cx.args[0])
    s = cx.e.slice_seq(cx.st, sl)
    if isinstance(sl.len, int):
        xs = [cx.e.slice_get(cx.st, sl, i) for i in range(sl.len)]
        for i, x in enumerate(reversed(xs)):
            cx.e.slice_set(cx.st, sl, i, x)
        return Agg(None, [])
    last = iz(add(add(sl.start, sl.start), sub(sl.len, 1)))
    cx.e.store(cx.st, Ref(sl.root, sl.path), Seq(s.ty, s.ety, s.len, NMap(s.node, sl.start, iz(add(sl.start, sl.len)), lambda i: cx.e.nread(None, s.node, iz(sub(last, i))))))
    return Agg(None, [])

@model(r"^<std::vec::Vec<T, A> as std::ops::(Deref|DerefMut)>::|^std::vec::Vec::<T, A>::as_(mut_)?slice$|^<std::vec::Vec<T, A> as std::convert::As(Ref|Mut)<\[T\]>>::|^<std::vec::Vec<T, A> as std::borrow::Borrow")
def m_vec_deref(cx):
    return cx.e.as_slice(cx.st, cx.args[0])

def clone_seq(cx, s, t=None):
    for x in [s.ety]:
        clone_ok(cx.e, x)
    return Seq(t if t is not None else s.ty, s.ety, s.len, s.node)

def clone_ok(e, t):
    ty = e.p.ty[t]
    if ty["k"] in ("int", "float", "bool", "char", "ref", "str"):
        return
    if ty["k"] == "tuple":
        for x in ty["elems"]: clone_ok(e, x)
        return
    if ty["k"] == "array":
        return clone_ok(e, ty["elem"])
    if ty["k"] == "adt":
        n = ty["name"]
        for v in ty["variants"]:
            for f in v["fields"]:
                if not re.search(r"vec::Vec|string::String|raw_vec|PhantomData|alloc", e.p.ty[f["ty"]].get("name", "")):
                    clone_ok(e, f["ty"])
        return
    raise Unsupported("clone of " + ty.get("s", "?"))

@model(r"^<std::vec::Vec<T, A> as std::clone::Clone>::clone$|^(std|alloc)::slice::<impl \[T\]>::(to_vec|into_vec|to_owned)$|^<\[T\] as std::borrow::ToOwned>::to_owned$")
def m_vec_clone(cx):
    a = cx.args[0]
    if isinstance(a, Slice):
        s = cx.e.slice_seq(cx.st, a)
        t = cx.rty()
        if isinstance(s.node, NList) and isinstance(a.start, int) and isinstance(a.len, int):
            return Seq(t, s.ety, a.len, NList(s.node.xs[a.start:a.start + a.len]))
        nd = s.node if same(a.start, 0) else NShift(s.node, a.start)
        return Seq(t, s.ety, a.len, nd)
    return clone_seq(cx, vec_of(cx))

def range_of(cx, r, n):
    """(lo, hi) of a range value over a sequence of length n"""
    t = cx.e.p.ty[r.ty]["name"].split("::")[-1]
    if t == "Range": return r.fs[0], r.fs[1]
    if t == "RangeFrom": return r.fs[0], n
    if t == "RangeTo": return 0, r.fs[0]
    if t == "RangeFull": return 0, n
    if t == "RangeInclusive": return r.fs[0], iz(add(r.fs[1], 1))
    if t == "RangeToInclusive": return 0, iz(add(r.fs[0], 1))
    raise Unsupported("range " + t)

def do_index(cx, sl, i):
    if isinstance(i, Agg):
        lo, hi = range_of(cx, i, sl.len)
        cx.guard(and_(le(lo, hi), le(hi, sl.len)), "range index out of bounds")
        return Slice(sl.root, sl.path, iz(add(sl.start, lo)), iz(sub(hi, lo)))
    cx.guard(and_(le(0, i), lt(i, sl.len)), "index out of bounds")
    return cx.e.elem_ref(sl, i)

@model(r"^<std::vec::Vec<T, A> as std::ops::(Index|IndexMut)<I>>::index(_mut)?$|slice::index::<impl std::ops::(Index|IndexMut)<I> for \[T\]>::index(_mut)?$|^<std::array.* as std::ops::Index|array::<impl std::ops::(Index|IndexMut)<I> for \[T; N\]>::index")
def m_index(cx):
    a = cx.args[0]
    if isinstance(a, Str) :
        raise Unsupported("string index")
    return do_index(cx, cx.e.as_slice(cx.st, a), cx.args[1])

@model(r"SliceIndex<\[T\]>>::(index|index_mut)$")
def m_sliceindex(cx):
    return do_index(cx, cx.e.as_slice(cx.st, cx.args[1]), cx.args[0])

@model(r"^core::slice::<impl \[T\]>::get(_mut)?$")
def m_slice_get(cx):
    sl = cx.e.as_slice(cx.st, cx.args[0]); i = cx.args[1]
    if isinstance(i, Agg):
        lo, hi = range_of(cx, i, sl.len)
        return cx.fork(and_(le(lo, hi), le(hi, sl.len)), lambda st: cx.option(Slice(sl.root, sl.path, iz(add(sl.start, lo)), iz(sub(hi, lo)))), lambda st: cx.option())
    return cx.fork(lt(i, sl.len), lambda st: cx.option(cx.e.elem_ref(sl, i)), lambda st: cx.option())

@model(r"^core::slice::<impl \[T\]>::(get_unchecked|get_unchecked_mut)$")
def m_slice_getu(cx):
    sl = cx.e.as_slice(cx.st, cx.args[0])
    return cx.e.elem_ref(sl, cx.args[1])

@model(r"^core::slice::<impl \[T\]>::(first|last)(_mut)?$")
def m_slice_first(cx):
    sl = cx.e.as_slice(cx.st, cx.args[0])
    i = 0 if "first" in cx.inst["def"].split("::")[-1] else iz(sub(sl.len, 1))
    return cx.fork(gt(sl.len, 0), lambda st: cx.option(cx.e.elem_ref(sl, i)), lambda st: cx.option())

@model(r"^core::slice::<impl \[T\]>::swap$")
def m_swap(cx):
    sl = cx.e.as_slice(cx.st, cx.args[0]); i, j = cx.args[1:]
    cx.guard(and_(lt(i, sl.len), lt(j, sl.len)), "index out of bounds")
    a, b = cx.e.slice_get(cx.st, sl, i), cx.e.slice_get(cx.st, sl, j)
    cx.e.slice_set(cx.st, sl, i, b); cx.e.slice_set(cx.st, sl, j, a)
    return Agg(None, [])

@model(r"^core::slice::<impl \[T\]>::fill$")
def m_fill(cx):
    sl = cx.e.as_slice(cx.st, cx.args[0]); v = cx.args[1]
    if isinstance(sl.len, int):
        for i in range(sl.len):
            cx.e.slice_set(cx.st, sl, i, v)
        return Agg(None, [])
    s = cx.e.slice_seq(cx.st, sl)
    cx.e.store(cx.st, Ref(sl.root, sl.path), Seq(s.ty, s.ety, s.len, NMap(s.node, sl.start, iz(add(sl.start, sl.len)), lambda i: v)))
    return Agg(None, [])

@model(r"^core::slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)$")
def m_copyfrom(cx):
    a = cx.e.as_slice(cx.st, cx.args[0]); b = cx.e.as_slice(cx.st, cx.args[1])
    cx.guard(eq(a.len, b.len), "slice lengths differ")
    s = cx.e.slice_seq(cx.st, a); o = cx.e.slice_seq(cx.st, b)
    if isinstance(a.len, int):
        for i in range(a.len):
            cx.e.slice_set(cx.st, a, i, cx.e.nread(cx.st, o.node, iz(add(b.start, i))))
        return Agg(None, [])
    off = iz(sub(b.start, a.start))
    st = cx.st
    cx.e.store(cx.st, Ref(a.root, a.path), Seq(s.ty, s.ety, s.len, NMap(s.node, a.start, iz(add(a.start, a.len)), lambda i: cx.e.nread(None, o.node, iz(add(i, off))))))
    return Agg(None, [])

# ---------------------------------------------------------------- iterators
@model(r"^core::slice::<impl \[T\]>::iter(_mut)?$|^core::slice::iter::<impl std::iter::IntoIterator for &'a (mut )?\[T\]>::into_iter$|^<&'a (mut )?std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$|^(core|std)::array::<impl std::iter::IntoIterator for &'a (mut )?\[T; N\]>::into_iter$|^core::array::iter::<impl std::iter::IntoIterator for &")
def m_iter(cx):
    sl = cx.e.as_slice(cx.st, cx.args[0])
    return It('ref', sl, 0, sl.len)

@model(r"^<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$|^(core|std)::array::.*IntoIterator for \[T; N\]>::into_iter$|^core::array::iter::<impl std::iter::IntoIterator for \[T; N\]>::into_iter")
def m_into_iter(cx):
    v = cx.args[0]
    h = cx.e.alloc(cx.st, v)
    return It('own', Slice(h.root, h.path, 0, v.len), 0, v.len)

def it_item(e, st, it, i):
    r = e.elem_ref(it.sl, i)
    if it.kind == 'own':
        return e.load(st, r)
    return r

def it_next(cx, back=False):
    ref = cx.args[0]
    it = cx.e.load(cx.st, ref)
    if not isinstance(it, It):
        raise Unsupported("next on %r" % type(it))
    def some(st):
        if back:
            n = iz(sub(it.end, 1))
            cx.e.store(st, ref, It(it.kind, it.sl, it.pos, n))
            return cx.option(it_item(cx.e, st, it, n))
        cx.e.store(st, ref, It(it.kind, it.sl, iz(add(it.pos, 1)), it.end))
        return cx.option(it_item(cx.e, st, it, it.pos))
    return cx.fork(lt(it.pos, it.end), some, lambda st: cx.option())

ITS = r"<std::(slice::(Iter|IterMut)<'a?_?, T>|vec::IntoIter<T, A>|array::IntoIter<T, N>)"
@model(r"^" + ITS + r" as std::iter::Iterator>::next$|^#iter_next$")
def m_it_next(cx): return it_next(cx)
@model(r"^" + ITS + r" as std::iter::DoubleEndedIterator>::next_back$")
def m_it_next_back(cx): return it_next(cx, True)
def _val(cx, i=0):
    a = cx.args[i]
    while isinstance(a, Ref):
        a = cx.e.load(cx.st, a)
    return a

# skipping over a slice is iterating over its tail
@model(r"^std::iter::Iterator::skip$")
@when(lambda cx: isinstance(cx.args[0], It))
def m_skip(cx):
    it, n = cx.args
    p = iz(add(it.pos, n))
    c = cx.e.simp(cx.st, le(p, it.end))
    return It(it.kind, it.sl, ite(c, p, it.end), it.end)
@model(r"^<std::iter::Skip<I> as std::iter::Iterator>::next$")
@when(lambda cx: isinstance(_val(cx), It))
def m_skip_next(cx): return it_next(cx)

@model(r"^" + ITS + r" as std::iter::(TrustedRandomAccessNoCoerce>::size|ExactSizeIterator>::len|Iterator>::count)$")
def m_it_size(cx):
    it = cx.args[0]
    if isinstance(it, Ref): it = cx.e.load(cx.st, it)
    return iz(sub(it.end, it.pos))
@model(r"^" + ITS + r" as std::iter::Iterator>::size_hint$")
def m_it_hint(cx):
    it = cx.e.load(cx.st, cx.args[0])
    n = iz(sub(it.end, it.pos))
    t = cx.rty()
    ot = cx.e.p.ty[t]["elems"][1]
    return Agg(t, [n, Enum(ot, 1, {1: (n,)})])
@model(r"^" + ITS + r" as std::iter::Iterator>::__iterator_get_unchecked$")
def m_it_getu(cx):
    it = cx.e.load(cx.st, cx.args[0])
    return it_item(cx.e, cx.st, it, iz(add(it.pos, cx.args[1])))
@model(r"^" + ITS + r" as std::clone::Clone>::clone$")
def m_it_clone(cx):
    return cx.e.load(cx.st, cx.args[0])
@model(r"^" + ITS + r" as std::iter::Iterator>::(nth|advance_by)$|^" + ITS + r" as std::iter::DoubleEndedIterator>::nth_back$")
def m_it_nth(cx):
    what = cx.inst["def"].split("::")[-1]
    ref = cx.args[0]; n = cx.args[1]
    it = cx.e.load(cx.st, ref)
    if what != "nth":
        raise Unsupported(what)
    def some(st):
        p = iz(add(it.pos, n))
        cx.e.store(st, ref, It(it.kind, it.sl, iz(add(p, 1)), it.end))
        return cx.option(it_item(cx.e, st, it, p))
    def none(st):
        cx.e.store(st, ref, It(it.kind, it.sl, it.end, it.end))
        return cx.option()
    return cx.fork(lt(add(it.pos, n), it.end), some, none)

@model(r"^(std|core)::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next$")
def m_range_next(cx):
    ref = cx.args[0]
    r = cx.e.load(cx.st, ref)
    if not is_scalar(r.fs[0]):
        raise Unsupported("range of %r" % type(r.fs[0]))
    def some(st):
        cx.e.store(st, ref, Agg(r.ty, [iz(add(r.fs[0], 1)), r.fs[1]]))
        return cx.option(r.fs[0])
    return cx.fork(lt(r.fs[0], r.fs[1]), some, lambda st: cx.option())

@model(r"^(std|core)::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back$")
def m_range_next_back(cx):
    ref = cx.args[0]
    r = cx.e.load(cx.st, ref)
    def some(st):
        n = iz(sub(r.fs[1], 1))
        cx.e.store(st, ref, Agg(r.ty, [r.fs[0], n]))
        return cx.option(n)
    return cx.fork(lt(r.fs[0], r.fs[1]), some, lambda st: cx.option())

# generic loops over a slice iterator, written as MIR
def synth(e, name):
    ids = getattr(e.p, "_synth", None)
    if ids is None:
        ids = e.p._synth = {}
        e.p.ty[-1] = {"k": "other", "s": "#"}
        e.p.insts[-10] = {"id": -10, "name": "#iter_next", "def": "#iter_next", "crate": "core", "kind": "item", "args": []}
        e.p.insts[-11] = {"id": -11, "name": "#call_closure", "def": "#call_closure", "crate": "core", "kind": "item", "args": []}
        e.p.ty[-20] = {"k": "fndef", "name": "#iter_next", "inst": -10, "s": "#"}
        e.p.ty[-21] = {"k": "fndef", "name": "#call_closure", "inst": -11, "s": "#"}
        for n, nm in enumerate(("#push", "#take", "#failed", "#none", "#some", "#inc", "#continues", "#output", "#from_output")):
            e.p.insts[-12 - n] = {"id": -12 - n, "name": nm, "def": nm, "crate": "core", "kind": "item", "args": []}
            e.p.ty[-22 - n] = {"k": "fndef", "name": nm, "inst": -12 - n, "s": "#"}
    if name in ids:
        return ids[name]
    L = lambda n, *pr: {"local": n, "projection": list(pr)}
    cp = lambda p: {"Copy": p}
    fn = lambda t: {"Constant": {"const_": {"kind": "ZeroSized", "ty": t}}}
    asg = lambda p, r: {"k": "assign", "p": p, "r": r, "aty": None}
    blk = lambda s, t: {"s": s, "t": t, "line": 0, "file": "<" + name + ">"}
    ref = lambda p: {"Ref": [None, "Shared", p]}
    some = lambda n: L(n, {"Downcast": 1}, {"Field": [0, -1]})
    if name == "fold":
        # _1 it, _2 init, _3 f ; _4 acc _5 &it _6 opt _7 discr _8 &f
        blocks = [
            blk([asg(L(4), {"Use": [cp(L(2))]})], {"Goto": {"target": 1}}),
            blk([asg(L(5), ref(L(1)))], {"Call": {"func": fn(-20), "args": [cp(L(5))], "destination": L(6), "target": 2}}),
            blk([asg(L(7), {"Discriminant": L(6)})], {"SwitchInt": {"discr": cp(L(7)), "targets": {"branches": [[0, 4]], "otherwise": 3}}}),
            blk([asg(L(8), ref(L(3)))], {"Call": {"func": fn(-21), "args": [cp(L(8)), cp(L(4)), cp(some(6))], "destination": L(4), "target": 1}}),
            blk([asg(L(0), {"Use": [cp(L(4))]})], "Return"),
        ]
        nl, argc = 9, 3
    elif name == "for_each":
        blocks = [
            blk([], {"Goto": {"target": 1}}),
            blk([asg(L(5), ref(L(1)))], {"Call": {"func": fn(-20), "args": [cp(L(5))], "destination": L(6), "target": 2}}),
            blk([asg(L(7), {"Discriminant": L(6)})], {"SwitchInt": {"discr": cp(L(7)), "targets": {"branches": [[0, 4]], "otherwise": 3}}}),
            blk([asg(L(8), ref(L(2)))], {"Call": {"func": fn(-21), "args": [cp(L(8)), cp(some(6))], "destination": L(4), "target": 1}}),
            blk([asg(L(0), {"Aggregate": ["Tuple", []]})], "Return"),
        ]
        nl, argc = 9, 2
    elif name in ("all", "any"):
        # _1 &mut it, _2 f
        blocks = [
            blk([], {"Goto": {"target": 1}}),
            blk([], {"Call": {"func": fn(-20), "args": [cp(L(1))], "destination": L(6), "target": 2}}),
            blk([asg(L(7), {"Discriminant": L(6)})], {"SwitchInt": {"discr": cp(L(7)), "targets": {"branches": [[0, 5]], "otherwise": 3}}}),
            blk([asg(L(8), ref(L(2)))], {"Call": {"func": fn(-21), "args": [cp(L(8)), cp(some(6))], "destination": L(4), "target": 4}}),
            blk([], {"SwitchInt": {"discr": cp(L(4)), "targets": {"branches": [[0, 1 if name == "any" else 6]], "otherwise": 6 if name == "any" else 1}}}),
            blk([asg(L(0), {"Use": [{"Constant": {"const_": {"kind": {"PyVal": name == "all"}, "ty": -1}}}]})], "Return"),
            blk([asg(L(0), {"Use": [{"Constant": {"const_": {"kind": {"PyVal": name == "any"}, "ty": -1}}}]})], "Return"),
        ]
        nl, argc = 9, 2
    elif name in ("find", "find_map", "position"):
        # _1 &mut it, _2 f, _3 type of the result
        arg = [asg(L(9), {"Use": [cp(some(6))]}), asg(L(8), ref(L(2)))] + ([asg(L(10), ref(L(9)))] if name == "find" else [])
        blocks = [
            blk([asg(L(11), {"Use": [{"Constant": {"const_": {"kind": {"PyVal": 0}, "ty": -1}}}]})], {"Goto": {"target": 1}}),
            blk([], {"Call": {"func": fn(-20), "args": [cp(L(1))], "destination": L(6), "target": 2}}),
            blk([asg(L(7), {"Discriminant": L(6)})], {"SwitchInt": {"discr": cp(L(7)), "targets": {"branches": [[0, 5]], "otherwise": 3}}}),
            blk(arg, {"Call": {"func": fn(-21), "args": [cp(L(8)), cp(L(10 if name == "find" else 9))], "destination": L(4), "target": 4}}),
            blk([asg(L(7), {"Discriminant": L(4)})] if name == "find_map" else [asg(L(7), {"Use": [cp(L(4))]})], {"SwitchInt": {"discr": cp(L(7)), "targets": {"branches": [[0, 7]], "otherwise": 6}}}),
            blk([], {"Call": {"func": fn(-25), "args": [cp(L(3))], "destination": L(0), "target": 8}}),
            blk([asg(L(0), {"Use": [cp(L(4))]})], "Return") if name == "find_map" else
            blk([], {"Call": {"func": fn(-26), "args": [cp(L(9 if name == "find" else 11)), cp(L(3))], "destination": L(0), "target": 8}}),
            blk([], {"Call": {"func": fn(-27), "args": [cp(L(11))], "destination": L(11), "target": 1}}) if name == "position" else blk([], {"Goto": {"target": 1}}),
            blk([], "Return"),
        ]
        nl, argc = 12, 3
    elif name == "try_fold":
        # _1 &mut it, _2 init, _3 f, _4 type of the result
        blocks = [
            blk([asg(L(5), {"Use": [cp(L(2))]})], {"Goto": {"target": 1}}),
            blk([], {"Call": {"func": fn(-20), "args": [cp(L(1))], "destination": L(6), "target": 2}}),
            blk([asg(L(7), {"Discriminant": L(6)})], {"SwitchInt": {"discr": cp(L(7)), "targets": {"branches": [[0, 7]], "otherwise": 3}}}),
            blk([asg(L(8), ref(L(3)))], {"Call": {"func": fn(-21), "args": [cp(L(8)), cp(L(5)), cp(some(6))], "destination": L(9), "target": 4}}),
            blk([], {"Call": {"func": fn(-28), "args": [cp(L(9))], "destination": L(10), "target": 5}}),
            blk([], {"SwitchInt": {"discr": cp(L(10)), "targets": {"branches": [[0, 6]], "otherwise": 8}}}),
            blk([asg(L(0), {"Use": [cp(L(9))]})], "Return"),
            blk([], {"Call": {"func": fn(-30), "args": [cp(L(5)), cp(L(4))], "destination": L(0), "target": 9}}),
            blk([], {"Call": {"func": fn(-29), "args": [cp(L(9))], "destination": L(5), "target": 1}}),
            blk([], "Return"),
        ]
        nl, argc = 11, 4
    elif name in ("collect", "try_collect"):
        # _1 it, _2 f, _3 &vec, _4 type
        tr = name == "try_collect"
        item = L(8, {"Downcast": 0}, {"Field": [0, -1]}) if tr else L(8)
        blocks = [
            blk([asg(L(5), ref(L(1))), asg(L(9), ref(L(2)))], {"Goto": {"target": 1}}),
            blk([], {"Call": {"func": fn(-20), "args": [cp(L(5))], "destination": L(6), "target": 2}}),
            blk([asg(L(7), {"Discriminant": L(6)})], {"SwitchInt": {"discr": cp(L(7)), "targets": {"branches": [[0, 6]], "otherwise": 3}}}),
            blk([], {"Call": {"func": fn(-21), "args": [cp(L(9)), cp(some(6))], "destination": L(8), "target": 4 if tr else 5}}),
            blk([asg(L(10), {"Discriminant": L(8)})], {"SwitchInt": {"discr": cp(L(10)), "targets": {"branches": [[0, 5]], "otherwise": 7}}}) if tr else blk([], "Return"),
            blk([], {"Call": {"func": fn(-22), "args": [cp(L(3)), cp(item)], "destination": L(11), "target": 1}}),
            blk([], {"Call": {"func": fn(-23), "args": [cp(L(3)), cp(L(4))], "destination": L(0), "target": 8}}),
            blk([], {"Call": {"func": fn(-24), "args": [cp(L(8, {"Downcast": 1}, {"Field": [0, -1]})), cp(L(4))], "destination": L(0), "target": 8}}) if tr else blk([], "Return"),
            blk([], "Return"),
        ]
        nl, argc = 12, 4
    elif name == "from_iter":
        # _1 it, _2 &vec, _3 the spec_extend to run ; result: the vector
        blocks = [
            blk([], {"Call": {"func": cp(L(3)), "args": [cp(L(2)), cp(L(1))], "destination": L(4), "target": 1}}),
            blk([asg(L(0), {"Use": [cp(L(2, "Deref"))]})], "Return"),
        ]
        nl, argc = 5, 3
    elif name == "extend":
        # _1 &vec, _2 it, _3 the iterator's next
        blocks = [
            blk([asg(L(5), ref(L(2)))], {"Goto": {"target": 1}}),
            blk([], {"Call": {"func": cp(L(3)), "args": [cp(L(5))], "destination": L(6), "target": 2}}),
            blk([asg(L(7), {"Discriminant": L(6)})], {"SwitchInt": {"discr": cp(L(7)), "targets": {"branches": [[0, 4]], "otherwise": 3}}}),
            blk([], {"Call": {"func": fn(-22), "args": [cp(L(1)), cp(some(6))], "destination": L(8), "target": 1}}),
            blk([asg(L(0), {"Aggregate": ["Tuple", []]})], "Return"),
        ]
        nl, argc = 9, 3
    iid = -100 - len(ids)
    e.p.insts[iid] = {"id": iid, "name": "#" + name, "def": "#" + name, "crate": "vharness", "kind": "item", "args": [],
                      "body": {"argc": argc, "locals": [-1] * nl, "blocks": blocks, "names": [], "spread": None}}
    ids[name] = iid
    return iid

@model(r"^#call_closure$")
def m_call_closure(cx):
    f = cx.e.load(cx.st, cx.args[0]) if isinstance(cx.args[0], Ref) else cx.args[0]
    env = cx.args[0]
    while isinstance(f, Ref):
        env = f
        f = cx.e.load(cx.st, f)
    args = list(cx.args[1:])
    if isinstance(f, Fn):
        return Tail(f.inst, args)
    t = cx.e.p.ty[f.ty]
    if t["k"] != "closure":
        raise Unsupported("call of %r" % t["s"])
    inst = cx.e.p.insts[t["inst"]]
    return Tail(t["inst"], [env] + args)

def callee(e, iid, pat):
    """the function matching pat that iid's body calls"""
    for b in e.p.insts[iid].get("body", {}).get("blocks", ()):
        t = b["t"]
        if isinstance(t, dict) and "Call" in t and "Constant" in t["Call"]["func"]:
            ty = e.p.ty[t["Call"]["func"]["Constant"]["const_"]["ty"]]
            if ty["k"] == "fndef" and ty.get("inst") is not None and re.search(pat, e.p.insts[ty["inst"]]["def"]):
                return ty["inst"]
    return None

@model(r"SpecFromIterNested<T, I>>::from_iter$")
def m_from_iter(cx):
    e, st = cx.e, cx.st
    f = callee(e, cx.inst["id"], r"SpecExtend<.*>>::spec_extend$|::extend_trusted$|::extend_desugared$")
    if f is None:
        raise Unsupported("collecting with " + cx.inst["name"])
    t = cx.rty()
    v = e.alloc(st, Seq(t, e.p.targ(t), 0, NList([])))
    return Tail(synth(e, "from_iter"), [cx.args[0], v, Fn(f)])

@model(r"^std::vec::Vec::<T, A>::extend_trusted$")
def m_extend_trusted(cx):
    e = cx.e
    f = callee(e, cx.inst["id"], r"Iterator>?::for_each$")
    if f is None:
        raise Unsupported("extending with " + cx.inst["name"])
    t = e.p.insts[f]["body"]["locals"][2]
    return Tail(f, [cx.args[1], Agg(t, [cx.args[0]])])

@model(r"^std::vec::Vec::<T, A>::extend_trusted::\{closure#0\}$")
def m_extend_item(cx):
    e, st = cx.e, cx.st
    env = cx.args[0]
    while isinstance(env, Ref):
        env = e.load(st, env)
    v, x = env.fs[0], cx.args[1]
    if cx.fname.split("::")[-1] in ("call", "call_mut", "call_once"):
        x = x.fs[0]
    e.store(st, v, seq_push(cx, e.load(st, v), x))
    return Agg(None, [])

@model(r"^std::vec::Vec::<T, A>::extend_desugared$")
def m_extend_desugared(cx):
    e = cx.e
    f = callee(e, cx.inst["id"], r"Iterator>?::next$")
    if f is None:
        raise Unsupported("extending with " + cx.inst["name"])
    return Tail(synth(e, "extend"), list(cx.args) + [Fn(f)])

@model(r"^#none$")
def m_none(cx): return Enum(cx.args[0], 0, {})
@model(r"^#some$")
def m_some(cx): return Enum(cx.args[1], 1, {1: (cx.args[0],)})
@model(r"^#inc$")
def m_inc(cx): return iz(add(cx.args[0], 1))
def goes_on(cx, r):
    """the variant of a Try type that continues"""
    n = cx.e.p.ty[r.ty]["s"] if isinstance(r, (Enum, Agg)) else ""
    if isinstance(r, Enum) and "ControlFlow<" in n[:40]: return 0
    if isinstance(r, Enum) and "Result<" in n[:40]: return 0
    if isinstance(r, Enum) and "Option<" in n[:40]: return 1
    raise Unsupported("try_fold with %s" % n)
@model(r"^#continues$")
def m_continues(cx):
    r = cx.args[0]
    if isinstance(r, Agg): return True          # NeverShortCircuit
    return cx.e.simp(cx.st, eq(r.d, goes_on(cx, r)))
@model(r"^#output$")
def m_output(cx):
    r = cx.args[0]
    if isinstance(r, Agg): return r.fs[0]
    return r.pl[goes_on(cx, r)][0]
@model(r"^#from_output$")
def m_from_output(cx):
    v, t = cx.args
    if cx.e.p.ty[t]["k"] == "adt" and "NeverShortCircuit" in cx.e.p.ty[t]["s"]: return Agg(t, [v])
    i = goes_on(cx, Enum(t, 0, {}))
    return Enum(t, i, {i: (v,)})
@model(r"^" + ITS + r" as std::iter::Iterator>::(find|find_map|position)$")
def m_find(cx):
    return Tail(synth(cx.e, cx.inst["def"].split("::")[-1]), list(cx.args) + [cx.rty()])
@model(r"^" + ITS + r" as std::iter::Iterator>::try_fold$")
def m_try_fold(cx):
    return Tail(synth(cx.e, "try_fold"), list(cx.args) + [cx.rty()])
@model(r"^" + ITS + r" as std::iter::Iterator>::last$")
def m_it_last(cx):
    it = cx.args[0]
    return cx.fork(lt(it.pos, it.end), lambda st: cx.option(it_item(cx.e, st, it, iz(sub(it.end, 1)))), lambda st: cx.option())
@model(r"^" + ITS + r" as std::iter::Iterator>::fold$")
def m_fold(cx):
    return Tail(synth(cx.e, "fold"), cx.args)
@model(r"^" + ITS + r" as std::iter::Iterator>::for_each$")
def m_foreach(cx):
    return Tail(synth(cx.e, "for_each"), cx.args)
@model(r"^" + ITS + r" as std::iter::Iterator>::(all|any)$")
def m_allany(cx):
    return Tail(synth(cx.e, cx.inst["def"].split("::")[-1]), cx.args)

# ------------------------------------------------------------------ numbers
def lnf(e, st, x):
    """natural logarithm"""
    if isc(x.v) and x.plain():
        if x.v == 1: return F(Fraction(0))
        if x.v <= 0: return NINF if x.v == 0 else NAN
        return F(LN(Z(x.v)))
    a = F(LN(Z(pz(poly(x.v)) if not isc(x.v) else x.v)))
    z = eq(x.v, Fraction(0)); n = lt(x.v, Fraction(0))
    fin = x.isfin()
    r = F(a.v, or_(x.nan, x.ninf, and_(fin, n)), x.pinf, and_(fin, z))
    return e.fclean(st, r)

def powi(x, n):
    if isinstance(n, int):
        if n < 0:
            return fdiv(F(Fraction(1)), powi(x, -n))
        r = F(Fraction(1))
        for _ in range(n):
            r = fmul(r, x)
        return r
    if not x.plain():
        raise Unsupported("powi of special value")
    return F(POWI(Z(x.v), Z(n)))

def f64fn(cx, name):
    e, st, a = cx.e, cx.st, cx.args
    x = a[0]
    if name in ("abs", "fabs"):
        if not isinstance(x, F): return iabs(cx)
        return fabs(x)
    if e.absfloat and not (name in ("powi", "powif64") and isinstance(a[1], int) and a[1] >= 1) and name not in ("sqrt", "sqrtf64", "abs", "fabs", "max", "min", "clamp", "is_nan", "is_finite", "is_infinite", "is_sign_negative", "floor", "ceil", "trunc", "round"):
        nan, p, m = fresh_bool("fl.nan"), fresh_bool("fl.pinf"), fresh_bool("fl.ninf")
        st.assume(not_(or_(and_(nan, p), and_(nan, m), and_(p, m))))
        return F(z3.Real(fresh_name("fl")), nan, p, m)
    if e.absfloat and name in ("powi", "powif64") and isinstance(a[1], int) and a[1] >= 1:
        v, over = z3.Real(fresh_name("fl")), fresh_bool("fl.over")
        if a[1] % 2 == 0:
            st.assume(v >= 0)
            return e.fclean(st, F(v, x.nan, or_(x.pinf, x.ninf, and_(x.isfin(), over)), False))
        st.assume(and_(implies(ge(x.v, Fraction(0)), v >= 0), implies(le(x.v, Fraction(0)), v <= 0)))
        return e.fclean(st, F(v, x.nan, or_(x.pinf, and_(x.isfin(), over, gt(x.v, Fraction(0)))), or_(x.ninf, and_(x.isfin(), over, lt(x.v, Fraction(0))))))
    if e.absfloat and name in ("sqrt", "sqrtf64"):
        v = z3.Real(fresh_name("fl"))
        st.assume(and_(v >= 0, implies(eq(x.v, Fraction(0)), v == 0)))
        return e.fclean(st, F(v, or_(x.nan, x.ninf, and_(x.isfin(), lt(x.v, Fraction(0)))), x.pinf, False))
    if name in ("sqrt", "sqrtf64"):
        if x.plain():
            r = F(rsqrt(x.v), lt(x.v, Fraction(0)))
        else:
            r = F(rsqrt(x.v), or_(x.nan, x.ninf, and_(x.isfin(), lt(x.v, Fraction(0)))), x.pinf, False)
        r = e.fclean(st, r)
        if not isc(r.v) and not sqrt_known(st, r.v):
            v = r.v
            arg = v.arg(0)
            st.assume(implies(ge(arg, Fraction(0)), and_(ge(v, Fraction(0)), eq(v * v, arg))))
        return r
    if name in ("powi", "powif64"):
        r = powi(x, a[1])
        return e.fclean(st, r)
    if name in ("powf", "powf64"):
        y = a[1]
        if isc(y.v) and y.plain():
            f = Fraction(y.v)
            if f.denominator == 1 and abs(f) < 64:
                return e.fclean(st, powi(x, int(f)))
            if f == Fraction(1, 2):
                return f64fn_call(cx, "sqrt", [x])
        if isc(x.v) and x.plain() and x.v == 1:
            return F(Fraction(1))
        if isc(x.v) and x.plain() and x.v > 0 or valid(st.pc, and_(x.isfin(), gt(x.v, Fraction(0)))):
            r = F(POW(Z(x.v), Z(y.v)))
            if not y.plain(): raise Unsupported("powf special exponent")
            st.assume(gt(r.v, Fraction(0)))
            return r
        raise Unsupported("powf of possibly nonpositive base")
    if name in ("exp", "expf64"):
        if isc(x.v) and x.plain() and x.v == 0: return F(Fraction(1))
        v = EXP(Z(pz(poly(x.v))))
        st.assume(v > 0)
        if x.plain(): return F(v)
        return F(ite(x.ninf, Fraction(0), v), x.nan, x.pinf, False)
    if name == "ln": return lnf(e, st, x)
    if name in ("log2", "log10", "log"):
        b = {"log2": F(Fraction(2)), "log10": F(Fraction(10))}.get(name) or a[1]
        l = lnf(e, st, x); d = lnf(e, st, b)
        for t in (d,):
            if isc(b.v) and b.v > 1: st.assume(gt(d.v, Fraction(0)))
        return e.fclean(st, fdiv(l, d, e.nonzero(st)))
    if name in ("floor", "floorf64", "ceil", "ceilf64", "trunc", "truncf64", "round", "roundf64"):
        if isc(x.v):
            import math
            n = name.replace("f64", "")
            v = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}.get(n)
            if v: return F(Fraction(v(x.v)), x.nan, x.pinf, x.ninf)
        fl = z3.ToReal(z3.ToInt(Z(x.v)))
        if name.startswith("floor"): v = fl
        elif name.startswith("ceil"): v = -z3.ToReal(z3.ToInt(-Z(x.v)))
        elif name.startswith("trunc"): v = z3.If(Z(x.v) >= 0, fl, -z3.ToReal(z3.ToInt(-Z(x.v))))
        else:
            h = z3.RealVal("1/2")
            v = z3.If(Z(x.v) >= 0, z3.ToReal(z3.ToInt(Z(x.v) + h)), -z3.ToReal(z3.ToInt(-Z(x.v) + h)))
        return F(v, x.nan, x.pinf, x.ninf)
    if name in ("max", "min", "maxnumf64", "minnumf64", "maximum_number_nsz_f64", "minimum_number_nsz_f64"):
        y = a[1]
        if not isinstance(x, F):
            return ite(ge(x, y), x, y) if name == "max" else ite(le(x, y), x, y)
        c = fle(y, x) if name.startswith("max") else fle(x, y)
        if x.plain() and y.plain():
            return fite(c, x, y)
        r = fite(c, x, y)
        r = fite(x.nan, y, fite(y.nan, x, r))
        return r
    if name == "clamp":
        lo, hi = a[1], a[2]
        cx.guard(fle(lo, hi), "clamp: min > max")
        r = fite(flt(x, lo), lo, x)
        return fite(flt(hi, r), hi, r)
    if name == "is_nan": return x.nan
    if name == "is_finite": return x.isfin()
    if name == "is_infinite": return or_(x.pinf, x.ninf)
    if name == "is_sign_negative": return or_(x.ninf, and_(x.isfin(), lt(x.v, Fraction(0))))
    if name == "recip": return e.fclean(st, fdiv(F(Fraction(1)), x, e.nonzero(st)))
    if name == "mul_add": return fadd(fmul(x, a[1]), a[2])
    if name == "signum":
        return F(ite(gt(x.v, Fraction(0)), Fraction(1), ite(lt(x.v, Fraction(0)), Fraction(-1), Fraction(1))), x.nan) if x.plain() else _uns("signum")
    if name == "to_bits": return to_bits(e, st, x)
    if name == "from_bits": return from_bits(e, st, x)
    if name == "hypot":
        return f64fn_call(cx, "sqrt", [fadd(fmul(x, x), fmul(a[1], a[1]))])
    if name == "copysign": return _uns("copysign")
    if name == "total_cmp": return _uns("total_cmp")
    return _uns("f64::" + name)

def sqrt_known(st, v):
    return False

def _uns(s):
    raise Unsupported(s)

def f64fn_call(cx, name, args):
    c = Cx(cx.e, cx.st, cx.inst, args, cx.fname)
    r = f64fn(c, name)
    cx.extra += c.extra
    return r

def to_bits(e, st, x):
    """bit pattern: one integer per value, two for zero"""
    if x.nan is not False and not valid(st.pc, not_(x.nan)):
        raise Unsupported("bits of a NaN")
    b = uf("f64bits", RS, IS)(Z(x.v))
    inf, ninf, sign = 0x7ff << 52, 0xfff << 52, 1 << 63
    st.assume(and_(uf("f64value", IS, RS)(b) == Z(x.v), b >= 0, b < (1 << 64), *[b != k for k in (0, sign, inf, ninf)]))
    z = 0 if x.negz == "no" else ite(fresh_bool("negative zero"), sign, 0)
    return ite(x.pinf, inf, ite(x.ninf, ninf, ite(eq(x.v, Fraction(0)), z, b)))

# a hasher is the chain of the words written to it; nothing says that different chains end in different hashes
def hash_chain(cx, h, kind, x):
    return uf("hash.chain", IS, IS, IS, IS)(Z(h), Z(kind), Z(x))

@model(r"^std::hash::DefaultHasher::new$|^<std::hash::DefaultHasher as std::default::Default>::default$")
def m_hasher_new(cx):
    return Agg(cx.rty(), [0])

@model(r"^<std::hash::DefaultHasher as std::hash::Hasher>::finish$")
def m_hasher_finish(cx):
    h = cx.e.load(cx.st, cx.args[0]).fs[0]
    return uf("hash.finish", IS, IS)(Z(h))

WORDS = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "char"]
@model(r"^core::hash::impls::<impl std::hash::Hash for (u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|bool|char)>::hash$|^<std::hash::DefaultHasher as std::hash::Hasher>::write_\w+$")
def m_hash_word(cx):
    d = cx.inst["def"]
    m = re.search(r" for (\w+)>::hash$", d)
    if m:
        k, x, r = m.group(1), cx.e.load(cx.st, cx.args[0]), cx.args[1]
    else:
        k, x, r = d.split("write_")[-1], cx.args[1], cx.args[0]
    if k not in WORDS:
        raise Unsupported("hash of " + k)
    if isinstance(x, bool) or (not isc(x) and z3.is_bool(x)):
        x = ite(x, 1, 0)
    while isinstance(cx.e.load(cx.st, r), Ref):
        r = cx.e.load(cx.st, r)
    h = cx.e.load(cx.st, r)
    if not (isinstance(h, Agg) and is_scalar(h.fs[0])):
        raise Unsupported("hasher %r" % type(h))
    cx.e.store(cx.st, r, Agg(h.ty, [hash_chain(cx, h.fs[0], WORDS.index(k), x)]))
    return Agg(None, [])

def from_bits(e, st, x):
    raise Unsupported("from_bits")

@model(r"::<impl f64>::(abs|sqrt|powi|powf|exp|ln|log2|log10|log|floor|ceil|trunc|round|max|min|clamp|is_nan|is_finite|is_infinite|recip|mul_add|signum|hypot|copysign|total_cmp|to_bits|is_sign_negative|sin|cos|tan|exp2|cbrt)$")
def m_f64(cx):
    return f64fn(cx, cx.inst["def"].split("::")[-1])

def iabs(cx):
    x = cx.args[0]
    if isc(x): return abs(x)
    return z3.If(x >= 0, x, -x)

@model(r"^core::num::<impl (i32|i64|isize|i8|i16|i128)>::(abs)$")
def m_iabs(cx):
    lo = {"i8": -2**7, "i16": -2**15, "i32": -2**31, "i64": -2**63, "isize": -2**63, "i128": -2**127}[re.search(r"<impl (\w+)>", cx.inst["def"]).group(1)]
    cx.guard(not_(eq(cx.args[0], lo)), "attempt to negate with overflow")
    return iabs(cx)

@model(r"^core::num::<impl (usize|u8|u16|u32|u64|u128|i32|i64|isize)>::(pow|saturating_sub|saturating_add|wrapping_add|wrapping_sub|wrapping_mul|checked_sub|checked_add|checked_mul|abs_diff|unsigned_abs)$")
def m_intops(cx):
    op = cx.inst["def"].split("::")[-1]
    t = re.search(r"<impl (\w+)>", cx.inst["def"]).group(1)
    bits = {"usize": 64, "isize": 64}.get(t) or int(t[1:])
    sg = t[0] == "i"
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
    a, b = cx.args[0], cx.args[1] if len(cx.args) > 1 else None
    if op == "pow":
        if isinstance(b, int) and b <= 8:
            r = 1
            for _ in range(b): r = mul(r, a)
            cx.guard(and_(le(lo, r), le(r, hi)), "attempt to multiply with overflow")
            return iz(r)
        raise Unsupported("integer power")
    base = {"sub": sub, "add": add, "mul": mul}
    if op.startswith("saturating_"):
        r = iz(base[op[11:]](a, b))
        c1 = cx.e.simp(cx.st, lt(r, lo)); c2 = cx.e.simp(cx.st, gt(r, hi))
        return ite(c1, lo, ite(c2, hi, r))
    if op.startswith("wrapping_"):
        r = iz(base[op[9:]](a, b))
        return cx.e.wrap(cx.st, r, {"bytes": bits // 8, "signed": sg})
    if op.startswith("checked_"):
        r = iz(base[op[8:]](a, b))
        return cx.fork(and_(le(lo, r), le(r, hi)), lambda st: cx.option(r), lambda st: cx.option())
    if op == "abs_diff":
        c = cx.e.simp(cx.st, ge(a, b))
        return ite(c, sub(a, b), sub(b, a))
    if op == "unsigned_abs":
        return iabs(cx)
    raise Unsupported(op)

@model(r"^(std|core)::(cmp::)?(Ord|cmp::Ord)::(max|min)$|^std::cmp::Ord::(max|min)$|^std::cmp::(max|min)$")
def m_ordmax(cx):
    a, b = cx.args
    if not is_scalar(a) or isinstance(a, F):
        raise Unsupported("max/min")
    return ite(gt(a, b), a, b) if cx.inst["def"].endswith("max") else ite(gt(a, b), b, a)

def _i(f):
    return lambda cx: f64fn(cx, f)
INTR = {
    "fabs": _i("abs"), "fabsf64": _i("abs"), "sqrtf64": _i("sqrt"), "sqrt": _i("sqrt"), "powif64": _i("powi"), "powi": _i("powi"), "powf64": _i("powf"),
    "powf": _i("powf"), "expf64": _i("exp"), "exp": _i("exp"), "logf64": _i("ln"), "log": _i("ln"), "log2f64": _i("log2"), "log2": _i("log2"),
    "log10f64": _i("log10"), "log10": _i("log10"), "floorf64": _i("floor"), "floor": _i("floor"), "ceilf64": _i("ceil"), "ceil": _i("ceil"),
    "size_of_val": lambda cx: _uns("size_of_val"),
    "black_box": lambda cx: cx.args[0],
    "assert_inhabited": lambda cx: Agg(None, []),
    "cold_path": lambda cx: Agg(None, []),
    "likely": lambda cx: cx.args[0], "unlikely": lambda cx: cx.args[0],
    "ub_checks": lambda cx: False,
}

# ---------------------------------------------------------------- allocator
@model(r"^(std|core)::mem::(replace|take|swap)$")
def m_mem(cx):
    op = cx.inst["def"].split("::")[-1]
    old = cx.e.load(cx.st, cx.args[0])
    if op == "replace":
        cx.e.store(cx.st, cx.args[0], cx.args[1]); return old
    if op == "swap":
        b = cx.e.load(cx.st, cx.args[1])
        cx.e.store(cx.st, cx.args[0], b); cx.e.store(cx.st, cx.args[1], old)
        return Agg(None, [])
    raise Unsupported("mem::take")

@model(r"^(std|core)::mem::(drop|forget)$")
def m_drop(cx):
    return Agg(None, [])

# --------------------------------------------------------------------- rand
DISTR = {"Open01": ("U", 0, 1, True, True), "OpenClosed01": ("UOC", 0, 1, True, False), "Standard": ("UCO", 0, 1, False, True)}
def draw(cx, ref, kind):
    r = cx.e.load(cx.st, ref)
    while isinstance(r, Ref):
        ref = r
        r = cx.e.load(cx.st, r)
    if not isinstance(r, Rng):
        raise Unsupported("sample from %r" % type(r))
    cx.e.store(cx.st, ref, Rng(iz(add(r.idx, 1)), r.sid))
    nm = kind if r.sid in ("rng", "r") else kind + "@" + str(r.sid)
    v = uf(nm, IS, RS)(Z(r.idx))
    if kind == "U":
        cx.st.assume(and_(v > 0, v < 1))
    elif kind == "UOC":
        cx.st.assume(and_(v > 0, v <= 1))
    elif kind == "UCO":
        cx.st.assume(and_(v >= 0, v < 1))
    return F(v)

@model(r"rand::Rng>?::(sample|gen|gen_range)$|^rand::Rng::(sample|gen|gen_range)$")
def m_sample(cx):
    n = cx.inst["name"]
    if "Open01>" in n: return draw(cx, cx.args[0], "U")
    if "OpenClosed01>" in n: return draw(cx, cx.args[0], "UOC")
    if re.search(r"StandardNormal>", n): return draw(cx, cx.args[0], "G")
    if re.search(r"sample::<f64, .*Standard>|gen::<f64>", n): return draw(cx, cx.args[0], "UCO")
    raise Unsupported("distribution in " + n)

@model(r"^rand_pcg::(pcg128::)?Lcg128Xsl64::new$")
def m_pcg_new(cx):
    a, b = cx.args
    return Rng(0, ("seeded", str(a), str(b)))

@model(r"^<rand_pcg::(pcg128::)?Lcg128Xsl64 as std::clone::Clone>::clone$")
def m_pcg_clone(cx):
    return cx.e.load(cx.st, cx.args[0])

@model(r"^std::string::String::into_boxed_str$")
def m_boxed_str(cx):
    return cx.args[0]

def str_len(e, st, s):
    l = s.lit()
    if l is None:
        raise Unsupported("length of symbolic string")
    return len(l.encode())

# skipping over, or taking from, a slice iterator is a slice iterator
@model(r"^std::iter::Iterator::take$")
@when(lambda cx: isinstance(cx.args[0], It))
def m_take(cx):
    it, n = cx.args
    p = iz(add(it.pos, n))
    c = cx.e.simp(cx.st, le(p, it.end))
    return It(it.kind, it.sl, it.pos, ite(c, p, it.end))

for rx, f in list(TABLE):
    if rx.pattern.startswith("^" + ITS):
        g = (lambda f: lambda cx: f(cx))(f)
        when(lambda cx: cx.args and isinstance(_val(cx), It))(g)
        TABLE.append((re.compile(rx.pattern.replace(ITS, r"<std::iter::(Skip|Take)<I>")), g))
