"""Meanings of the standard-library functions that the analysed crates call, in terms of the
abstract domain. Everything else of the standard library is interpreted from its own MIR."""
from dom import *
from interp import Fork, Dead, GiveUp

NATIVES = {}
CONTRACTS = {}


def native(*names):
    def deco(fn):
        for n in names:
            NATIVES[n] = fn
        return fn
    return deco


class C:
    """One call in progress."""
    __slots__ = ('e', 'st', 'fr', 'f', 'a', 'rty', 'span')

    def __init__(self, e, st, fr, f, a, rty, span):
        self.e, self.st, self.fr, self.f, self.a, self.rty, self.span = e, st, fr, f, a, rty, span

    def get(self, p):
        if isinstance(p, P):
            return self.e.read(self.st, p.cell, p.path)
        return p

    def put(self, p, v):
        self.e.write(self.st, p.cell, p.path, v)

    def var(self, name, *f, ty=None):
        ty = self.rty if ty is None else ty
        return A(ty, self.e.p.variant_index(ty, name), f)

    def some(self, v):
        return self.var('Some', v)

    def none(self):
        return self.var('None')

    def tname(self, v):
        ty = getattr(v, 'ty', None)
        if ty is None:
            return None
        t = self.e.p.types[ty]
        return t['name'] if t['k'] == 'adt' else None

    def require(self, kind, cond):
        self.e.panic_site(self.st, self.fr, kind, c_norm(cond), self.span)

    def between(self, s, pos):
        e, st = self.e, self.st
        if not e.track_panics:
            return
        v = e.boundary(st, s, pos)
        if v == 'sure' and st.weak is not None:
            v = 'open'
        e.panic_note(st, self.fr, 'text cut between characters', v, self.span, pos)
        e.bnd(st, s.t, pos)

    def arg_ty(self, i):
        return self.f['args'][i] if i < len(self.f['args']) else None


def as_str(c, v):
    """The text behind a String, &String, Arc<String> or &str value."""
    n = 0
    while isinstance(v, P):
        v = c.get(v)
        n += 1
        if n > 6:
            raise GiveUp('text behind pointers')
    if isinstance(v, STR):
        return v
    if isinstance(v, S):
        return STR(v.t, 0, atom(('len', v.t)))
    if isinstance(v, SL) and v.cell[0] == 'm' and v.cell[1][0] == 'bytesof' and not v.path:
        return STR(v.cell[1][1], v.lo, v.hi)
    if isinstance(v, IT) and v.kind == 'string':
        return STR(('built', v), 0, atom(('len', ('built', v))))
    bs = None
    if isinstance(v, A) and v.f and all(isinstance(x, I) for x in v.f):
        bs = [x.l.const if isinstance(x, I) else None for x in v.f]
    elif isinstance(v, SL) and v.lo.const is not None and v.hi.const is not None:
        w = c.e.read(c.st, v.cell, v.path)
        if isinstance(w, A):
            bs = [x.l.const if isinstance(x, I) else None for x in w.f[v.lo.const:v.hi.const]]
    if bs is not None and None not in bs:
        try:
            s = bytes(bs).decode('utf-8')
            return STR(('lit', s), 0, len(bs))
        except ValueError:
            pass
    raise GiveUp('text of %r' % (v,))


def pieces_of(v):
    """The parts a text was put together from."""
    if isinstance(v, STR) and v.t[0] == 'fmt' and v.lo == ZERO and v.hi == atom(('len', v.t)):
        return [y for x in v.t[1] for y in pieces_of(x)]
    if isinstance(v, STR) and v.lo == v.hi:
        return []
    return [v]


def put_together(pieces):
    out = []
    for x in pieces:
        for y in pieces_of(x):
            if isinstance(y, STR) and is_lit(y) and out and isinstance(out[-1], STR) and is_lit(out[-1]):
                s = lit_of(out.pop()) + lit_of(y)
                y = STR(('lit', s), 0, len(s.encode('utf-8')))
            out.append(y)
    if not out:
        return STR(('lit', ''), 0, 0)
    if len(out) == 1 and isinstance(out[0], STR):
        return out[0]
    t = ('fmt', tuple(out))
    return STR(t, 0, atom(('len', t)))


def skey(s):
    return (s.t, s.lo, s.hi)


def str_eq(c, a, b):
    if a == b:
        return B(True)
    if a.t[0] == 'lit' and b.t[0] == 'lit' and a.lo.const is not None and b.lo.const is not None \
            and a.hi.const is not None and b.hi.const is not None:
        return B(lit_of(a) == lit_of(b))
    if a.t == b.t and (a.lo == b.lo or a.hi == b.hi) and c.st.truth(('eq', (a.hi - a.lo) - (b.hi - b.lo))):
        # parts of a text with one end in common
        return B(True)
    # lengths that cannot agree
    if c.st.facts.decide(('eq', (a.hi - a.lo) - (b.hi - b.lo))) is False:
        return B(False)
    k = tuple(sorted((skey(a), skey(b)), key=repr))
    cond = B(('p', ('streq',) + k))
    if c.st.truth(cond):
        c.st.assume(('eq', (a.hi - a.lo) - (b.hi - b.lo)))
        return B(True)
    return B(False)


def lit_of(s):
    return s.t[1].encode('utf-8')[s.lo.const:s.hi.const].decode('utf-8')


def is_lit(s):
    return s.t[0] == 'lit' and s.lo.const is not None and s.hi.const is not None


# --- pointers ------------------------------------------------------------------------------------
@native('std::boxed::Box::<T>::new', 'std::sync::Arc::<T>::new', 'std::rc::Rc::<T>::new')
def box_new(c):
    return P(c.e.heap(c.st, c.a[0]))


@native('std::boxed::Box::<T>::new_uninit')
def box_new_uninit(c):
    return P(c.e.heap(c.st, S(c.e.fresh('uninit'), c.e.p.types[c.rty]['args'][0])))


@native('<std::sync::Arc<T, A> as std::ops::Deref>::deref', '<std::rc::Rc<T, A> as std::ops::Deref>::deref',
        '<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref',
        '<std::boxed::Box<T, A> as std::ops::Deref>::deref', '<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut',
        '<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref', '<std::boxed::Box<T, A> as std::convert::AsMut<T>>::as_mut')
def ptr_deref(c):
    return c.get(c.a[0])


@native('<std::sync::Arc<T, A> as std::clone::Clone>::clone', '<std::rc::Rc<T, A> as std::clone::Clone>::clone')
def arc_clone(c):
    return c.get(c.a[0])


@native('std::boxed::box_assume_init_into_vec_unsafe')
def into_vec(c):
    v = array_in(c, c.get(c.a[0]))
    if v is None:
        raise GiveUp('vec literal')
    return VV(c.rty, [(x, lin(i), lin(i + 1)) for i, x in enumerate(v.f)], len(v.f))


def array_in(c, v):
    """The array inside the wrappers for memory that is not initialised yet."""
    if not isinstance(v, A):
        return None
    if v.ty is not None and c.e.p.types[v.ty]['k'] == 'array':
        return v
    return next((x for x in (array_in(c, y) for y in v.f) if x is not None), None)


@native('std::slice::<impl [T]>::into_vec', 'alloc::slice::<impl [T]>::into_vec')
def slice_into_vec(c):
    s = c.a[0]
    if not isinstance(s, SL):
        raise GiveUp('into_vec')
    v = c.e.read(c.st, s.cell, s.path)
    if isinstance(v, A):
        return VV(c.rty, [(x, lin(i), lin(i + 1)) for i, x in enumerate(v.f)], len(v.f))
    raise GiveUp('into_vec')


# --- vectors and slices ----------------------------------------------------------------------------
def seq_len(c, v):
    if isinstance(v, (VV, VO)):
        return v.n
    if isinstance(v, S):
        t = c.e.p.types[v.ty]
        if t['k'] == 'array':
            return lin(t['len'])
        return atom(('len', v.t))
    if isinstance(v, A):
        return lin(len(v.f))
    if isinstance(v, SL):
        return v.hi - v.lo
    raise GiveUp('length of %r' % (v,))


def as_slice(c, p):
    """Slice over a vector, array or slice behind a reference."""
    if isinstance(p, SL):
        return p
    if isinstance(p, STR):
        return c.e.bytes_of(p)
    if isinstance(p, P):
        v = c.get(p)
        if isinstance(v, (SL,)):
            return v
        if isinstance(v, STR):
            return c.e.bytes_of(v)
        if isinstance(v, P):
            return as_slice(c, v)
        return SL(p.cell, p.path, 0, seq_len(c, v))
    raise GiveUp('slice of %r' % (p,))


@native('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', '<std::vec::Vec<T> as std::default::Default>::default')
def vec_new(c):
    return VV(c.rty, (), 0)


@native('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len')
def vec_len(c):
    s = as_slice(c, c.a[0])
    return I(s.hi - s.lo)


@native('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def vec_is_empty(c):
    s = as_slice(c, c.a[0])
    return B(c_norm(('eq', s.hi - s.lo)))


@native('std::vec::Vec::<T, A>::push')
def vec_push(c):
    v = c.get(c.a[0])
    x = c.a[1]
    if isinstance(v, VV):
        if c.e.monitor and c.e.monitor.ALL_PUSHES:
            c.e.monitor.vec_push(c.e, c.st, c.a[0], v, x)
        c.put(c.a[0], VV(v.ty, v.segs + ((x, v.n, v.n + 1),), v.n + 1))
    elif isinstance(v, VO):
        if c.e.monitor:
            c.e.monitor.vec_push(c.e, c.st, c.a[0], v, x)
        c.put(c.a[0], VO(v.ty, v.tag, v.n + 1))
    elif isinstance(v, S):
        n = seq_len(c, v)
        c.put(c.a[0], S(('pushed', v.t, x), v.ty))
        c.st.assume(('eq', atom(('len', ('pushed', v.t, x))) - n - 1))
    else:
        raise GiveUp('push to %r' % (v,))
    return UNIT


@native('std::vec::Vec::<T, A>::pop')
def vec_pop(c):
    v = c.get(c.a[0])
    n = seq_len(c, v)
    if c.st.eq(n, 0):
        return c.none()
    x = c.e.elem(c.st, v, n - 1)
    vec_truncate_to(c, v, n - 1)
    return c.some(x)


def vec_truncate_to(c, v, m):
    if isinstance(v, VV):
        segs = []
        for t, lo, hi in v.segs:
            if c.st.ge(m, hi):
                segs.append((t, lo, hi))
            elif c.st.ge(lo, m):
                continue
            else:
                segs.append((t, lo, m))
        c.put(c.a[0], VV(v.ty, segs, m))
    elif isinstance(v, VO):
        if c.e.monitor:
            c.e.monitor.vec_truncate(c.e, c.st, c.a[0], v, m)
        c.put(c.a[0], VO(v.ty, v.tag, m))
    elif isinstance(v, S):
        t = ('take', v.t, m)
        c.put(c.a[0], S(t, v.ty))
        c.st.assume(('eq', atom(('len', t)) - m))
    else:
        raise GiveUp('truncate %r' % (v,))


@native('std::vec::Vec::<T, A>::truncate')
def vec_truncate(c):
    v = c.get(c.a[0])
    n = seq_len(c, v)
    if c.st.ge(c.a[1].l, n):
        return UNIT
    vec_truncate_to(c, v, c.a[1].l)
    return UNIT


@native('std::vec::Vec::<T, A>::insert')
def vec_insert(c):
    v, i, x = c.get(c.a[0]), c.a[1].l, c.a[2]
    if not isinstance(v, VV):
        raise GiveUp('insert into %r' % (v,))
    c.require('insert', ('ge', v.n - i))
    segs, done = [], False
    for t, lo, hi in v.segs:
        up = subst_val(t, {IDX: atom(IDX) - 1})
        if c.st.ge(i, hi):
            segs.append((t, lo, hi))
        elif c.st.ge(lo, i):
            segs.append((up, lo + 1, hi + 1))
        else:
            segs += [(t, lo, i), (up, i + 1, hi + 1)]
    c.put(c.a[0], VV(v.ty, sort_segs(c, segs + [(x, i, i + 1)], i), v.n + 1))
    return A(c.rty, 0, ())


def sort_segs(c, segs, i):
    before = [s for s in segs if c.st.holds_ge(i, s[2])]
    return before + [segs[-1]] + [s for s in segs[:-1] if s not in before]


@native('std::vec::Vec::<T, A>::clear')
def vec_clear(c):
    v = c.get(c.a[0])
    vec_truncate_to(c, v, lin(0))
    return UNIT


@native('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::shrink_to_fit', 'std::hint::assert_unchecked',
        'std::hint::assert_unchecked::precondition_check', 'core::num::<impl u32>::unchecked_add::precondition_check',
        'std::intrinsics::cold_path')
def nothing(c):
    return UNIT


@native('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
        'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice', '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref',
        '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow')
def vec_deref(c):
    return as_slice(c, c.a[0])


def range_of(c, r, n):
    """(lo, hi) of an index range over a sequence of length n, with its bounds required."""
    nm = c.tname(r)
    if nm is None and isinstance(r, A) and not r.f:
        return lin(0), n
    if nm is None:
        raise GiveUp('index range')
    nm = nm.split('::')[-1]
    if isinstance(r, S):
        r = c.e.expand(c.st, r)
    if nm == 'RangeFull':
        return lin(0), n
    if nm == 'Range':
        lo, hi = r.f[0].l, r.f[1].l
    elif nm == 'RangeFrom':
        lo, hi = r.f[0].l, n
    elif nm == 'RangeTo':
        lo, hi = lin(0), r.f[0].l
    elif nm == 'RangeInclusive':
        lo, hi = r.f[0].l, r.f[1].l + 1
    elif nm == 'RangeToInclusive':
        lo, hi = lin(0), r.f[0].l + 1
    else:
        raise GiveUp('index by ' + nm)
    return lo, hi


@native('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut',
        'core::slice::index::<impl std::ops::Index<I> for [T]>::index', 'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut',
        'std::array::<impl std::ops::Index<I> for [T; N]>::index', 'std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut')
def seq_index(c):
    s = as_slice(c, c.a[0])
    n = s.hi - s.lo
    i = c.a[1]
    if isinstance(i, I):
        c.require('index', ('ge', n - i.l - 1))
        return P(s.cell, s.path + (('i', s.lo + i.l),))
    lo, hi = range_of(c, i, n)
    c.require('slice range', ('ge', hi - lo))
    c.require('slice range', ('ge', n - hi))
    return SL(s.cell, s.path, s.lo + lo, s.lo + hi)


@native('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def slice_get(c):
    s = as_slice(c, c.a[0])
    n = s.hi - s.lo
    i = c.a[1]
    if isinstance(i, I):
        if c.st.ge(n, i.l + 1):
            return c.some(P(s.cell, s.path + (('i', s.lo + i.l),)))
        return c.none()
    lo, hi = range_of(c, i, n)
    if c.st.ge(hi, lo) and c.st.ge(n, hi):
        return c.some(SL(s.cell, s.path, s.lo + lo, s.lo + hi))
    return c.none()


@native('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def slice_first(c):
    s = as_slice(c, c.a[0])
    if c.st.ge(s.hi, s.lo + 1):
        return c.some(P(s.cell, s.path + (('i', s.lo),)))
    return c.none()


@native('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def slice_last(c):
    s = as_slice(c, c.a[0])
    if c.st.ge(s.hi, s.lo + 1):
        return c.some(P(s.cell, s.path + (('i', s.hi - 1),)))
    return c.none()


@native('core::slice::<impl [T]>::split_first')
def slice_split_first(c):
    s = as_slice(c, c.a[0])
    if c.st.ge(s.hi, s.lo + 1):
        tt = c.e.p.types[c.rty]['variants'][1]['fields'][0][1]
        return c.some(A(tt, 0, [P(s.cell, s.path + (('i', s.lo),)), SL(s.cell, s.path, s.lo + 1, s.hi)]))
    return c.none()


@native('core::slice::<impl [T]>::split_last')
def slice_split_last(c):
    s = as_slice(c, c.a[0])
    if c.st.ge(s.hi, s.lo + 1):
        tt = c.e.p.types[c.rty]['variants'][1]['fields'][0][1]
        return c.some(A(tt, 0, [P(s.cell, s.path + (('i', s.hi - 1),)), SL(s.cell, s.path, s.lo, s.hi - 1)]))
    return c.none()


@native('core::slice::<impl [T]>::split_at')
def slice_split_at(c):
    s = as_slice(c, c.a[0])
    c.require('split', ('ge', s.hi - s.lo - c.a[1].l))
    return A(c.rty, 0, [SL(s.cell, s.path, s.lo, s.lo + c.a[1].l), SL(s.cell, s.path, s.lo + c.a[1].l, s.hi)])


@native('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut',
        'core::slice::iter::<impl std::iter::IntoIterator for &\'a [T]>::into_iter',
        'core::slice::iter::<impl std::iter::IntoIterator for &\'a mut [T]>::into_iter',
        '<&\'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter',
        '<&\'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter',
        'std::array::<impl std::iter::IntoIterator for &\'a [T; N]>::into_iter')
def slice_iter(c):
    return IT('iter', (as_slice(c, c.a[0]),))


@native('<std::slice::Iter<\'a, T> as std::iter::Iterator>::next', '<std::slice::IterMut<\'a, T> as std::iter::Iterator>::next')
def iter_next(c):
    it = c.get(c.a[0])
    s = it.f[0]
    if c.st.ge(s.hi, s.lo + 1):
        c.put(c.a[0], IT('iter', (SL(s.cell, s.path, s.lo + 1, s.hi),)))
        return c.some(P(s.cell, s.path + (('i', s.lo),)))
    return c.none()


@native('<std::slice::Iter<\'a, T> as std::iter::DoubleEndedIterator>::next_back',
        '<std::slice::IterMut<\'a, T> as std::iter::DoubleEndedIterator>::next_back')
def iter_next_back(c):
    it = c.get(c.a[0])
    s = it.f[0]
    if c.st.ge(s.hi, s.lo + 1):
        c.put(c.a[0], IT('iter', (SL(s.cell, s.path, s.lo, s.hi - 1),)))
        return c.some(P(s.cell, s.path + (('i', s.hi - 1),)))
    return c.none()


@native('<std::slice::Iter<\'_, T> as std::iter::ExactSizeIterator>::len', '<std::slice::IterMut<\'_, T> as std::iter::ExactSizeIterator>::len')
def iter_len(c):
    s = c.get(c.a[0]).f[0]
    return I(s.hi - s.lo)


@native('<std::slice::Iter<\'a, T> as std::iter::Iterator>::size_hint')
def iter_size_hint(c):
    s = c.get(c.a[0]).f[0]
    tt = c.e.p.types[c.rty]['els']
    return A(c.rty, 0, [I(s.hi - s.lo), c.var('Some', I(s.hi - s.lo), ty=tt[1])])


@native('<std::slice::Iter<\'_, T> as std::clone::Clone>::clone', '<std::str::Chars<\'a> as std::clone::Clone>::clone')
def it_clone(c):
    return c.get(c.a[0])


@native('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def vec_into_iter(c):
    return IT('into_iter', (c.a[0], lin(0)))


@native('<std::vec::IntoIter<T, A> as std::iter::Iterator>::next')
def into_iter_next(c):
    it = c.get(c.a[0])
    v, i = it.f
    if c.st.ge(seq_len(c, v), i + 1):
        c.put(c.a[0], IT('into_iter', (v, i + 1)))
        return c.some(c.e.elem(c.st, v, i))
    return c.none()


@native('<std::vec::Vec<T, A> as std::clone::Clone>::clone', '<std::boxed::Box<T, A> as std::clone::Clone>::clone',
        'std::clone::impls::<impl std::clone::Clone for bool>::clone', 'std::clone::impls::<impl std::clone::Clone for f64>::clone',
        'std::clone::impls::<impl std::clone::Clone for usize>::clone', 'std::array::<impl std::clone::Clone for [T; N]>::clone',
        'std::clone::impls::<impl std::clone::Clone for u8>::clone', 'std::clone::impls::<impl std::clone::Clone for u32>::clone',
        'std::clone::impls::<impl std::clone::Clone for char>::clone', 'std::clone::impls::<impl std::clone::Clone for &T>::clone',
        '<std::string::String as std::clone::Clone>::clone', '<std::option::Option<T> as std::clone::Clone>::clone',
        'core::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::to_vec', 'std::slice::<impl std::borrow::ToOwned for [T]>::to_owned',
        'std::option::Option::<&T>::cloned', 'std::option::Option::<&T>::copied')
def clone(c):
    d = c.f['def']
    if d.endswith('cloned') or d.endswith('copied'):
        v = c.a[0]
        if isinstance(v, S):
            v = c.e.expand(c.st, v)
        return c.some(c.get(v.f[0])) if v.f else c.none()
    if d.endswith('to_vec') or d.endswith('to_owned'):
        s = as_slice(c, c.a[0])
        v = c.e.read(c.st, s.cell, s.path)
        if isinstance(v, (VV, S)) and c.st.holds_eq(s.lo, 0) and c.st.holds_eq(s.hi, seq_len(c, v)) \
                and c.e.p.types[v.ty]['k'] == 'adt':
            return v
        t = ('tovec', s)
        c.st.assume(('eq', atom(('len', t)) - (s.hi - s.lo)))
        return S(t, c.rty)
    return c.get(c.a[0])


# --- equality --------------------------------------------------------------------------------------
def content(c, v, n=0):
    """A term naming what a value holds, with pointers followed."""
    if n > 8:
        raise GiveUp('deep value')
    if isinstance(v, P):
        x = c.get(v)
        return content(c, x, n + 1)
    if isinstance(v, S):
        t = c.e.p.types[v.ty]
        if t['k'] == 'adt' and t['name'].endswith('string::String'):
            return ('str', v.t, ZERO, atom(('len', v.t)))
        return v.t
    if isinstance(v, STR):
        return ('str', v.t, v.lo, v.hi)
    if isinstance(v, A):
        return ('agg', v.v) + tuple(content(c, x, n + 1) for x in v.f)
    if isinstance(v, I):
        return v.l
    if isinstance(v, VV):
        return ('vec', v.n) + tuple((content(c, t, n + 1), a, b) for t, a, b in v.segs)
    return v


@native('<std::sync::Arc<T, A> as std::cmp::PartialEq>::eq', '<std::string::String as std::cmp::PartialEq>::eq',
        '<std::string::String as std::cmp::PartialEq<str>>::eq', '<std::string::String as std::cmp::PartialEq<&str>>::eq',
        '<std::string::String as std::cmp::PartialEq<&\'a str>>::eq',
        'std::string::<impl std::cmp::PartialEq<std::string::String> for str>::eq',
        'std::string::<impl std::cmp::PartialEq<std::string::String> for &\'a str>::eq',
        'core::str::traits::<impl std::cmp::PartialEq for str>::eq')
def text_eq(c):
    return str_eq(c, as_str(c, c.a[0]), as_str(c, c.a[1]))


@native('<std::boxed::Box<T, A> as std::cmp::PartialEq>::eq',
        'std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::eq',
        'core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq',
        'std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq')
def value_eq(c):
    if isinstance(c.a[0], STR) and isinstance(c.a[1], STR):
        return str_eq(c, c.a[0], c.a[1])
    a, b = content(c, slice_content(c, c.a[0])), content(c, slice_content(c, c.a[1]))
    if a == b:
        return B(True)
    return B(('p', ('valeq',) + tuple(sorted((a, b), key=repr))))


def slice_content(c, p):
    if isinstance(p, SL):
        v = c.e.read(c.st, p.cell, p.path)
        if c.st.holds_eq(p.lo, 0) and c.st.holds_eq(p.hi, seq_len(c, v)):
            return v
        raise GiveUp('compare part of a slice')
    return p


@native('core::str::<impl str>::eq_ignore_ascii_case')
def eq_ci(c):
    a, b = as_str(c, c.a[0]), as_str(c, c.a[1])
    if a == b:
        return B(True)
    if is_lit(a) and is_lit(b):
        return B(lit_of(a).lower() == lit_of(b).lower())
    k = tuple(sorted((skey(a), skey(b)), key=repr))
    if c.st.facts.decide(('p', ('streq',) + k)) is True:
        return B(True)
    r = c.st.truth(('p', ('streqci',) + k))
    if r:
        c.st.assume(('eq', (a.hi - a.lo) - (b.hi - b.lo)))
    elif c.st.facts.assume(('n', ('streq',) + k)) is False:
        raise Dead('texts')
    return B(r)


# --- text ------------------------------------------------------------------------------------------
@native('<std::string::String as std::ops::Deref>::deref', 'std::string::String::as_str', '<std::string::String as std::convert::AsRef<str>>::as_ref',
        '<std::string::String as std::borrow::Borrow<str>>::borrow', 'core::str::<impl str>::as_ref', 'core::str::<impl str>::as_bytes',
        'std::string::String::as_bytes', 'core::str::<impl std::convert::AsRef<str> for str>::as_ref')
def to_str(c):
    return as_str(c, c.a[0])


@native('<std::string::String as std::convert::From<&str>>::from', 'std::str::<impl std::borrow::ToOwned for str>::to_owned',
        '<str as std::string::ToString>::to_string', '<T as std::string::ToString>::to_string', '<str as std::string::SpecToString>::spec_to_string',
        'std::string::<impl std::convert::From<&std::string::String> for std::string::String>::from')
def to_string(c):
    return as_str(c, c.a[0])


@native('core::str::<impl str>::len', 'std::string::String::len')
def str_len(c):
    s = as_str(c, c.a[0])
    return I(s.hi - s.lo)


@native('core::str::<impl str>::is_empty', 'std::string::String::is_empty')
def str_is_empty(c):
    s = as_str(c, c.a[0])
    return B(c_norm(('eq', s.hi - s.lo)))


@native('core::str::traits::<impl std::ops::Index<I> for str>::index', '<std::string::String as std::ops::Index<I>>::index')
def str_index(c):
    s = as_str(c, c.a[0])
    n = s.hi - s.lo
    lo, hi = range_of(c, c.a[1], n)
    c.require('text range', ('ge', hi - lo))
    c.require('text range', ('ge', n - hi))
    c.between(s, s.lo + lo)
    c.between(s, s.lo + hi)
    return STR(s.t, s.lo + lo, s.lo + hi)


@native('core::str::<impl str>::get')
def str_get(c):
    s = as_str(c, c.a[0])
    n = s.hi - s.lo
    lo, hi = range_of(c, c.a[1], n)
    if c.st.ge(hi, lo) and c.st.ge(n, hi):
        p = ('boundary', s.t, s.lo + lo, s.lo + hi)
        if c.st.truth(('p', p)):
            return c.some(STR(s.t, s.lo + lo, s.lo + hi))
    return c.none()


@native('core::str::<impl str>::starts_with')
def starts_with(c):
    s = as_str(c, c.a[0])
    if not isinstance(c.a[1], (STR, P, S)):
        if isinstance(c.a[1], I):
            if c.st.ge(s.hi, s.lo + 1):
                return B(c_norm(('eq', atom(('ch', s.t, s.lo)) - c.a[1].l)))
            return B(False)
        raise GiveUp('pattern')
    return prefix(c, s, as_str(c, c.a[1]))


@native('core::str::<impl str>::ends_with')
def ends_with(c):
    if not isinstance(c.a[1], (STR, P, S)):
        raise GiveUp('pattern')
    return prefix(c, as_str(c, c.a[0]), as_str(c, c.a[1]), 'suffix')


@native('core::str::<impl str>::contains')
def str_contains(c):
    if not isinstance(c.a[1], (STR, P, S)):
        raise GiveUp('pattern')
    return prefix(c, as_str(c, c.a[0]), as_str(c, c.a[1]), 'inside')


@native('core::str::<impl str>::eq_ignore_ascii_case', 'core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case')
def eq_ignore_case(c):
    s, t = as_str(c, c.a[0]), as_str(c, c.a[1])
    if s == t:
        return B(True)
    if is_lit(s) and is_lit(t):
        return B(lit_of(s).lower() == lit_of(t).lower())
    same = ('streq',) + tuple(sorted((skey(s), skey(t)), key=repr))
    if c.st.facts.decide(('p', same)) is True:
        return B(True)
    if c.st.facts.decide(('eq', (s.hi - s.lo) - (t.hi - t.lo))) is False:
        return B(False)
    if c.st.truth(('p', ('samecase',) + same[1:])):
        c.st.assume(('eq', (s.hi - s.lo) - (t.hi - t.lo)))
        return B(True)
    c.st.assume(('n', same))
    return B(False)


@native('core::str::<impl str>::trim', 'core::str::<impl str>::trim_start', 'core::str::<impl str>::trim_end',
        'core::str::<impl str>::trim_left', 'core::str::<impl str>::trim_right')
def trim(c):
    """The text without some named number of bytes on either side."""
    s = as_str(c, c.a[0])
    end = c.f['def'].rsplit('::', 1)[-1]
    if is_lit(s):
        x = lit_of(s)
        y = x.strip() if end == 'trim' else x.lstrip() if end in ('trim_start', 'trim_left') else x.rstrip()
        n = len(x.encode()) - len(x.lstrip().encode()) if end in ('trim', 'trim_start', 'trim_left') and y else 0
        return STR(s.t, s.lo + n, s.lo + n + len(y.encode()))
    lo, hi = s.lo, s.hi
    if end in ('trim', 'trim_start', 'trim_left'):
        lo = lo + atom(('blankbefore', skey(s)))
        c.st.assume(('ge', lo - s.lo))
    if end in ('trim', 'trim_end', 'trim_right'):
        hi = hi - atom(('blankafter', skey(s)))
        c.st.assume(('ge', s.hi - hi))
    c.st.assume(('ge', hi - lo))
    c.e.bnd(c.st, s.t, lo)
    c.e.bnd(c.st, s.t, hi)
    return STR(s.t, lo, hi)


@native('core::str::<impl str>::trim_matches', 'core::str::<impl str>::trim_start_matches', 'core::str::<impl str>::trim_end_matches',
        'core::str::<impl str>::trim_left_matches', 'core::str::<impl str>::trim_right_matches')
def trim_matches(c):
    """The text without what matches a pattern (a character or a text) on either side."""
    s = as_str(c, c.a[0])
    if isinstance(c.a[1], I):
        pat = ('ch', c.a[1].l)
    elif isinstance(c.a[1], STR):
        pat = ('str', skey(c.a[1]))
    else:
        raise GiveUp('trim with a pattern')
    end = c.f['def'].rsplit('::', 1)[-1]
    lo, hi = s.lo, s.hi
    if end in ('trim_matches', 'trim_start_matches', 'trim_left_matches'):
        lo = lo + atom(('cutbefore', skey(s), pat))
        c.st.assume(('ge', lo - s.lo))
    if end in ('trim_matches', 'trim_end_matches', 'trim_right_matches'):
        hi = hi - atom(('cutafter', skey(s), pat))
        c.st.assume(('ge', s.hi - hi))
    c.st.assume(('ge', hi - lo))
    c.e.bnd(c.st, s.t, lo)
    c.e.bnd(c.st, s.t, hi)
    return STR(s.t, lo, hi)


@native('std::str::<impl str>::replace', 'std::str::<impl str>::replacen', 'std::str::<impl str>::to_lowercase', 'std::str::<impl str>::to_uppercase',
        'std::str::<impl str>::to_ascii_lowercase', 'std::str::<impl str>::to_ascii_uppercase', 'std::str::<impl str>::repeat')
def reworked(c):
    """Either nothing in the text is concerned and it comes out as it is, or it becomes another text."""
    s = as_str(c, c.a[0])
    how = c.f['def'].rsplit('::', 1)[-1]
    if is_lit(s) and len(c.a) == 1 and lit_of(s).isascii():
        x = lit_of(s).lower() if how.endswith('lowercase') else lit_of(s).upper()
        return STR(('lit', x), 0, len(x))
    pat = tuple(('ch', a.l) if isinstance(a, I) else skey(as_str(c, a)) for a in c.a[1:])
    t = ('reworked', how, skey(s), pat)
    if c.st.holds_eq(s.hi, s.lo) or not c.st.truth(('p', ('changes',) + t[1:])):
        return s
    c.st.assume(('ge', s.hi - s.lo - 1))
    n = atom(('len', t))
    c.st.assume(('ge', n))
    if 'ascii' in how:
        c.st.assume(('eq', n - (s.hi - s.lo)))
    new = STR(t, 0, n)
    c.st.assume(('n', ('streq',) + tuple(sorted((skey(s), skey(new)), key=repr))))
    return new


def prefix(c, s, t, kind='prefix'):
    n = t.hi - t.lo
    if n.const == 0:
        return B(True)
    if is_lit(s) and is_lit(t):
        x, y = lit_of(s), lit_of(t)
        return B(x.startswith(y) if kind == 'prefix' else x.endswith(y) if kind == 'suffix' else y in x)
    if c.st.facts.decide(('ge', (s.hi - s.lo) - n)) is False:
        return B(False)
    d = c.st.facts.decide(('p', ('streq',) + tuple(sorted((skey(s), skey(t)), key=repr))))
    if d is True or d is False and c.st.holds_eq(s.hi - s.lo, n):
        return B(d)
    cond = ('p', ('prefix', (s.t, s.lo), skey(t)) if kind == 'prefix' else (kind, skey(s), skey(t)))
    if c.st.truth(cond):
        c.st.assume(('ge', (s.hi - s.lo) - n))
        if kind != 'inside':
            c.e.bnd(c.st, s.t, s.lo + n if kind == 'prefix' else s.hi - n)
        return B(True)
    return B(False)


@native('core::str::<impl str>::chars')
def chars(c):
    return IT('chars', (as_str(c, c.a[0]),))


@native('core::str::<impl str>::char_indices')
def char_indices(c):
    s = as_str(c, c.a[0])
    return IT('ci', (s, s.lo))


@native('core::str::<impl str>::bytes')
def bytes_(c):
    return IT('bytes', (as_str(c, c.a[0]),))


@native('std::str::Chars::<\'a>::as_str')
def chars_as_str(c):
    return c.get(c.a[0]).f[0]


def next_char(c, s):
    """First char of a non-empty text: (char, width)."""
    if is_lit(s):
        x = lit_of(s)[0]
        return lin(ord(x)), lin(len(x.encode('utf-8')))
    ch = atom(('ch', s.t, s.lo))
    if c.st.truth(('ge', -ch + 127)):
        if c.e.counting:
            c.st.assume(('eq', count_to(s, s.lo + 1) - count_to(s, s.lo) - 1))
        return ch, lin(1)
    w = atom(('cw', s.t, s.lo))
    c.st.assume(('ge', w - 2))
    c.st.assume(('ge', -w + 4))
    c.st.assume(('ge', s.hi - s.lo - w))
    if c.e.counting:
        c.st.assume(('eq', count_to(s, s.lo + 1) - count_to(s, s.lo) - 1))
        c.st.assume(('eq', count_to(s, s.lo + w) - count_to(s, s.lo) - 1))
    return ch, w


def count_to(s, x):
    """Number of characters of a text that start before a position."""
    x = lin(x)
    if x.const == 0:
        return ZERO
    if is_lit(STR(s.t, 0, 0)) and x.const is not None:
        return lin(len(s.t[1].encode('utf-8')[:x.const].decode('utf-8', 'ignore')))
    if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 and x.t[0][0][:2] == ('at', s.t):
        return lin(x.t[0][0][2])
    return atom(('C', s.t, x))


def char_pos(s, n):
    """Where the n-th character of a text starts."""
    n = lin(n)
    if n.const == 0:
        return ZERO
    return atom(('at', s.t, n))


@native('<std::str::Chars<\'a> as std::iter::Iterator>::next')
def chars_next(c):
    s = c.get(c.a[0]).f[0]
    if not c.st.ge(s.hi, s.lo + 1):
        return c.none()
    ch, w = next_char(c, s)
    c.e.bnd(c.st, s.t, s.lo)
    c.e.bnd(c.st, s.t, s.lo + w)
    c.put(c.a[0], IT('chars', (STR(s.t, s.lo + w, s.hi),)))
    return c.some(I(ch))


@native('<std::str::CharIndices<\'a> as std::iter::Iterator>::next')
def ci_next(c):
    s, base = c.get(c.a[0]).f
    if not c.st.ge(s.hi, s.lo + 1):
        return c.none()
    ch, w = next_char(c, s)
    c.e.bnd(c.st, s.t, s.lo)
    c.e.bnd(c.st, s.t, s.lo + w)
    c.put(c.a[0], IT('ci', (STR(s.t, s.lo + w, s.hi), base)))
    tt = c.e.p.types[c.rty]['variants'][1]['fields'][0][1]
    return c.some(A(tt, 0, [I(s.lo - base), I(ch)]))


@native('<std::str::Bytes<\'_> as std::iter::Iterator>::next')
def bytes_next(c):
    s = c.get(c.a[0]).f[0]
    if not c.st.ge(s.hi, s.lo + 1):
        return c.none()
    c.put(c.a[0], IT('bytes', (STR(s.t, s.lo + 1, s.hi),)))
    return c.some(I(c.e.byte_at(s.t, s.lo)))


@native('<std::str::Chars<\'a> as std::iter::Iterator>::count')
def chars_count(c):
    s = c.a[0].f[0]
    return I(nchars(c, s))


def nchars(c, s):
    if is_lit(s):
        return lin(len(lit_of(s)))
    if c.st.holds_eq(s.lo, s.hi):
        return ZERO
    if c.st.holds_eq(s.hi - s.lo, 1):
        return lin(1)
    n = count_to(s, s.hi) - count_to(s, s.lo)
    c.st.assume(('ge', s.hi - s.lo - n))
    if c.st.ge(s.hi, s.lo + 1):
        c.st.assume(('ge', n - 1))
    return n


@native('std::iter::Iterator::skip')
def it_skip(c):
    x = c.a[0]
    if isinstance(x, IT) and x.kind in ('chars', 'ci'):
        s = x.f[0]
        if is_lit(s):
            raise GiveUp('skipping')
        c.e.counting = True
        n = count_to(s, s.lo) + c.a[1].l
        if c.st.ge(count_to(s, s.hi), n):
            at = char_pos(s, n)
            if at.t:
                c.st.assume(('ge', at - s.lo))
                c.st.assume(('ge', s.hi - at))
        else:
            at = s.hi
        it = IT(x.kind, (STR(s.t, at, s.hi),) + tuple(x.f[1:]))
        fs = c.e.p.types[c.rty]['variants'][0]['fields']
        return A(c.rty, 0, [it if n == 'iter' else I(0) for n, _ in fs])
    return None


@native('std::char::methods::<impl char>::encode_utf8')
def encode_utf8(c):
    ch = c.a[0].l
    p = c.a[1]
    if isinstance(p, SL):
        cell, path = p.cell, p.path
    else:
        cell, path = p.cell, p.path
    c.e.write(c.st, cell, path + (('i', ZERO),), I(atom(('lead', ch))))
    t = ('utf8', ch)
    return STR(t, 0, atom(('len', t)))


@native('std::char::methods::<impl char>::len_utf8')
def len_utf8(c):
    ch = c.a[0].l
    if ch.const is not None:
        return I(len(chr(ch.const).encode('utf-8')))
    if c.st.truth(('ge', -ch + 127)):
        return I(1)
    if len(ch.t) == 1 and ch.c == 0 and ch.t[0][0][0] == 'ch':
        w = atom(('cw',) + ch.t[0][0][1:])
    else:
        w = atom(('cw', ch))
    c.st.assume(('ge', w - 2))
    c.st.assume(('ge', -w + 4))
    return I(w)


@native('std::char::methods::<impl char>::is_whitespace')
def is_ws(c):
    ch = c.a[0].l if isinstance(c.a[0], I) else c.get(c.a[0]).l
    k = c.st.facts.const_of(ch)
    if k is not None:
        return B(chr(k).isspace() and k not in (0x1c, 0x1d, 0x1e, 0x1f))
    return B(('p', ('ws', ch)))


@native('std::char::methods::<impl char>::is_digit', 'std::char::methods::<impl char>::is_ascii_digit')
def is_digit(c):
    ch = c.a[0].l if isinstance(c.a[0], I) else c.get(c.a[0]).l
    k = c.st.facts.const_of(ch)
    if k is not None:
        return B(chr(k) in '0123456789')
    return B(('p', ('digit', ch)))


@native('std::char::methods::<impl char>::is_control')
def is_control(c):
    ch = c.a[0].l if isinstance(c.a[0], I) else c.get(c.a[0]).l
    if c.st.truth(('ge', -ch + 31)):
        return B(True)
    return B(('p', ('control', ch)))


@native('core::str::<impl str>::split')
def split(c):
    s = as_str(c, c.a[0])
    if not isinstance(c.a[1], I) or c.a[1].l.const is None:
        raise GiveUp('split pattern')
    return IT('split', (s, c.a[1].l.const, B(False)))


@native('<std::str::Split<\'a, P> as std::iter::Iterator>::next')
def split_next(c):
    s, sep, done = c.get(c.a[0]).f
    if done.c is True:
        return c.none()
    e = atom(('sep', s.t, s.lo, sep))
    c.st.assume(('ge', e - s.lo))
    c.st.assume(('ge', s.hi - e))
    if c.st.eq(e, s.hi):
        c.put(c.a[0], IT('split', (STR(s.t, e, s.hi), sep, B(True))))
    else:
        c.put(c.a[0], IT('split', (STR(s.t, e + 1, s.hi), sep, B(False))))
    return c.some(STR(s.t, s.lo, e))


@native('core::str::<impl str>::split_terminator')
def split_terminator(c):
    s = as_str(c, c.a[0])
    if not isinstance(c.a[1], I) or c.a[1].l.const is None:
        raise GiveUp('split pattern')
    return IT('lines', (s, c.a[1].l.const, B(False)))


@native('core::str::<impl str>::lines')
def str_lines(c):
    return IT('lines', (as_str(c, c.a[0]), 10, B(True)))


@native('<std::str::Lines<\'a> as std::iter::Iterator>::next', '<std::str::SplitTerminator<\'a, P> as std::iter::Iterator>::next')
def lines_next(c):
    s, sep, cr = c.get(c.a[0]).f
    if c.st.eq(s.lo, s.hi):
        return c.none()
    e = atom(('sep', s.t, s.lo, sep))
    c.st.assume(('ge', e - s.lo))
    c.st.assume(('ge', s.hi - e))
    end = e
    if c.st.eq(e, s.hi):
        c.put(c.a[0], IT('lines', (STR(s.t, e, s.hi), sep, cr)))
    else:
        c.put(c.a[0], IT('lines', (STR(s.t, e + 1, s.hi), sep, cr)))
        if cr.c is True and c.st.truth(('ge', e - s.lo - 1)) and c.st.eq(atom(('ch', s.t, e - 1)), 13):
            end = e - 1
    return c.some(STR(s.t, s.lo, end))


@native('std::string::String::new', 'std::string::String::with_capacity')
def string_new(c):
    return STR(('lit', ''), 0, 0)


@native('std::string::String::push_str', '<std::string::String as std::ops::AddAssign<&str>>::add_assign')
def push_str(c):
    c.put(c.a[0], put_together([as_str(c, c.a[0]), as_str(c, c.a[1])]))
    return UNIT


@native('<std::string::String as std::ops::Add<&str>>::add')
def add_str(c):
    return put_together([as_str(c, c.a[0]), as_str(c, c.a[1])])


@native('std::string::String::push')
def push_char(c):
    ch = c.a[1].l
    if ch.const is not None:
        s = chr(ch.const)
        x = STR(('lit', s), 0, len(s.encode('utf-8')))
    else:
        x = IT('shown', (I(ch), 'display', ()))
    c.put(c.a[0], put_together([as_str(c, c.a[0]), x]))
    return UNIT


@native('std::string::String::clear')
def string_clear(c):
    c.put(c.a[0], STR(('lit', ''), 0, 0))
    return UNIT


@native('std::string::String::from_utf8')
def from_utf8(c):
    return c.var('Ok', S(('utf8of', c.a[0]), c.e.p.types[c.rty]['variants'][0]['fields'][0][1]))


# --- integers --------------------------------------------------------------------------------------
@native('std::cmp::impls::<impl std::cmp::Ord for usize>::min', 'std::cmp::impls::<impl std::cmp::Ord for u32>::min')
def int_min(c):
    return c.a[1] if c.st.ge(c.a[0].l, c.a[1].l) else c.a[0]


@native('std::cmp::impls::<impl std::cmp::Ord for usize>::max', 'std::cmp::impls::<impl std::cmp::Ord for u32>::max')
def int_max(c):
    return c.a[1] if c.st.ge(c.a[1].l, c.a[0].l) else c.a[0]


@native('std::intrinsics::integer_min')
def imin(c):
    return c.a[1] if c.st.ge(c.a[0].l, c.a[1].l) else c.a[0]


@native('std::intrinsics::integer_max')
def imax(c):
    return c.a[1] if c.st.ge(c.a[1].l, c.a[0].l) else c.a[0]


@native('core::num::<impl usize>::saturating_sub', 'core::num::<impl u32>::saturating_sub')
def sat_sub(c):
    a, b = c.a[0].l, c.a[1].l
    return I(a - b) if c.st.ge(a, b) else I(0)


@native('core::num::<impl usize>::saturating_add', 'core::num::<impl u32>::saturating_add',
        'core::num::<impl usize>::wrapping_add', 'core::num::<impl u32>::wrapping_add')
def sat_add(c):
    return I(c.a[0].l + c.a[1].l)


@native('core::num::<impl usize>::saturating_mul')
def sat_mul(c):
    a, b = c.a[0].l, c.a[1].l
    if a.const is not None:
        return I(b.scale(a.const))
    if b.const is not None:
        return I(a.scale(b.const))
    return I(atom(('op', 'Mul', a, b)))


@native('core::num::<impl usize>::checked_sub', 'core::num::<impl u32>::checked_sub')
def checked_sub(c):
    a, b = c.a[0].l, c.a[1].l
    return c.some(I(a - b)) if c.st.ge(a, b) else c.none()


@native('core::num::<impl usize>::checked_add', 'core::num::<impl u32>::checked_add')
def checked_add(c):
    return c.some(I(c.a[0].l + c.a[1].l))


@native('core::f64::<impl f64>::is_finite', 'std::f64::<impl f64>::is_finite')
def is_finite(c):
    return B(float_kind(c, 'finite'))


@native('core::f64::<impl f64>::is_nan', 'std::f64::<impl f64>::is_nan')
def is_nan(c):
    return B(float_kind(c, 'nan'))


@native('core::f64::<impl f64>::is_infinite', 'std::f64::<impl f64>::is_infinite')
def is_infinite(c):
    return B(float_kind(c, 'inf'))


def float_kind(c, kind):
    v = c.a[0]
    t = v.t if isinstance(v, S) else v
    kinds = ('finite', 'nan', 'inf')
    known = [k for k in kinds if c.st.facts.decide(('p', (k, t))) is not False]
    if len(known) > 1 and not any(c.st.facts.decide(('p', (k, t))) is True for k in kinds):
        k = known[c.e.choose(c.st, len(known))]
        for o in kinds:
            c.st.facts.assume(('p' if o == k else 'n', (o, t)))
    return c.st.facts.decide(('p', (kind, t))) is True


# --- memory ----------------------------------------------------------------------------------------
@native('std::mem::replace')
def mem_replace(c):
    v = c.get(c.a[0])
    c.put(c.a[0], c.a[1])
    return v


@native('std::mem::swap')
def mem_swap(c):
    x, y = c.get(c.a[0]), c.get(c.a[1])
    c.put(c.a[0], y)
    c.put(c.a[1], x)
    return UNIT


@native('std::option::Option::<T>::take')
def opt_take(c):
    v = c.get(c.a[0])
    c.put(c.a[0], c.var('None'))
    return v


@native('std::option::Option::<T>::replace')
def opt_replace(c):
    v = c.get(c.a[0])
    c.put(c.a[0], c.some(c.a[1]))
    return v


@native('std::mem::drop', 'std::hint::must_use', 'std::convert::identity')
def must_use(c):
    if c.f['def'] == 'std::mem::drop':
        return UNIT
    return c.a[0]


# --- ranges ----------------------------------------------------------------------------------------
@native('std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next')
def range_next(c):
    r = c.get(c.a[0])
    if isinstance(r, S):
        r = c.e.expand(c.st, r)
    lo, hi = r.f[0].l, r.f[1].l
    if c.st.ge(hi, lo + 1):
        c.put(c.a[0], A(r.ty, r.v, [I(lo + 1), r.f[1]]))
        return c.some(I(lo))
    return c.none()


@native('std::iter::range::<impl std::iter::DoubleEndedIterator for std::ops::Range<A>>::next_back')
def range_next_back(c):
    r = c.get(c.a[0])
    lo, hi = r.f[0].l, r.f[1].l
    if c.st.ge(hi, lo + 1):
        c.put(c.a[0], A(r.ty, r.v, [r.f[0], I(hi - 1)]))
        return c.some(I(hi - 1))
    return c.none()


# --- formatting ------------------------------------------------------------------------------------
def decode_template(bs):
    """Pieces of a format template: text, or ('arg', index, options)."""
    out, i, nxt = [], 0, 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(bytes(bs[i:i + n]).decode('utf-8'))
            i += n
        elif n == 0x80:
            k = bs[i] | bs[i + 1] << 8
            out.append(bytes(bs[i + 2:i + 2 + k]).decode('utf-8'))
            i += 2 + k
        else:
            opts = []
            if n & 1:
                opts.append(('flags', int.from_bytes(bytes(bs[i:i + 4]), 'little')))
                i += 4
            if n & 2:
                opts.append(('width', bs[i] | bs[i + 1] << 8, bool(n & 16)))
                i += 2
            if n & 4:
                opts.append(('prec', bs[i] | bs[i + 1] << 8, bool(n & 32)))
                i += 2
            if n & 8:
                nxt = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(('arg', nxt, tuple(opts)))
            nxt += 1
    return out


@native('std::fmt::Arguments::<\'a>::from_str', 'std::fmt::Arguments::<\'a>::from_str_nonconst')
def args_from_str(c):
    return IT('args', (c.a[0],))


@native('std::fmt::Arguments::<\'a>::new')
def args_new(c):
    t = c.get(c.a[0])
    bs = [x.l.const for x in t.f]
    args = c.get(c.a[1])
    out = []
    for p in decode_template(bs):
        if isinstance(p, str):
            out.append(STR(('lit', p), 0, len(p.encode('utf-8'))))
        else:
            a = args.f[p[1]]
            out.append(IT('shown', (a.f[0], a.f[1], p[2])))
    return IT('args', out)


@native('core::fmt::rt::Argument::<\'_>::new_display', 'core::fmt::rt::Argument::<\'_>::new_debug',
        'core::fmt::rt::Argument::<\'_>::new_lower_hex', 'core::fmt::rt::Argument::<\'_>::new_upper_hex')
def arg_new(c):
    v = c.a[0]
    n = 0
    while isinstance(v, P) and n < 6:
        v = c.get(v)
        n += 1
    return IT('fmtarg', (v, c.f['def'].split('new_')[-1]))


@native('std::fmt::format')
def fmt_format(c):
    a = c.a[0]
    if all(isinstance(x, STR) and is_lit(x) for x in a.f):
        s = ''.join(lit_of(x) for x in a.f)
        return STR(('lit', s), 0, len(s.encode('utf-8')))
    return put_together(a.f)


@native('std::io::Write::write_fmt', '<std::io::Stdout as std::io::Write>::write_fmt', '<std::io::Stderr as std::io::Write>::write_fmt',
        'std::fmt::Formatter::<\'a>::write_fmt', 'std::fmt::Write::write_fmt')
def write_fmt(c):
    m = c.e.monitor
    ety = c.e.p.types[c.rty]['variants'][1]['fields'][0][1]
    to = c.get(c.a[0]) if isinstance(c.a[0], P) else None
    if isinstance(to, STR) or isinstance(to, S) and c.e.p.adt_short(to.ty) == 'String':
        c.put(c.a[0], put_together([as_str(c, c.a[0])] + list(c.a[1].f)))
        return c.var('Ok', A(None, 0, ()))
    if c.e.choose(c.st, 2) == 1:
        if m:
            m.emit_failed(c.e, c.st, c.a[0])
        return c.var('Err', c.e.mk(('ioerror',), ety))
    if m:
        m.emit(c.e, c.st, c.a[0], [y for x in c.a[1].f for y in pieces_of(x)])
    return c.var('Ok', A(None, 0, ()))


@native('std::io::stdout', 'std::io::stderr')
def stdio(c):
    return S((c.f['def'].split('::')[-1],), c.rty)


@native('std::fmt::Formatter::<\'a>::write_str', 'std::io::Write::write_all', 'std::fmt::Write::write_str', 'alloc::io::impls::<impl std::io::Write for std::vec::Vec<u8, A>>::write_all', '<std::io::Stdout as std::io::Write>::write_all', '<std::io::Stderr as std::io::Write>::write_all', 'std::fmt::Formatter::<\'a>::pad')
def write_str(c):
    m = c.e.monitor
    ety = c.e.p.types[c.rty]['variants'][1]['fields'][0][1]
    if c.e.choose(c.st, 2) == 1:
        if m:
            m.emit_failed(c.e, c.st, c.a[0])
        return c.var('Err', c.e.mk(('ioerror',), ety))
    if m:
        m.emit(c.e, c.st, c.a[0], pieces_of(as_str(c, c.a[1])))
    return c.var('Ok', A(None, 0, ()))


# --- closures --------------------------------------------------------------------------------------
class Natives:
    def __init__(self, extra=None):
        self.extra = extra or {}

    def call(self, e, st, fr, f, fid, args, rty, span):
        fn = self.extra.get(f['name']) or NATIVES.get(f['def'])
        if fn is not None:
            return fn(C(e, st, fr, f, args, rty, span))
        d = f['def']
        if d in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call') or 'as std::ops::FnOnce' in d \
                or 'as std::ops::FnMut' in d or 'as std::ops::Fn<' in d:
            if 'blocks' not in f or f['kind'] == 'Shim':
                t = args[1]
                if isinstance(t, S):
                    t = e.expand(st, t)
                return ('callv', args[0], list(t.f))
        return None


def negated(eq):
    def ne(c):
        r = eq(c)
        if not isinstance(r, B):
            raise GiveUp('a comparison that is not yes or no')
        return B(c_not(r.c))
    return ne


for _n in [x for x in NATIVES if x.endswith('::eq')]:
    NATIVES.setdefault(_n[:-4] + '::ne', negated(NATIVES[_n]))
