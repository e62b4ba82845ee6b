"""Abstract interpreter over the MIR dump: path-partitioned states, joined and widened at loop
heads until nothing new appears. Nothing is executed and no path is handed to a solver."""
import time
from fractions import Fraction
import struct
from dom import *
from normal import normalize, is_name, forget_widths, lins_of


CALL_TRAITS = ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')


class Fork(Exception):
    """The step cannot continue without splitting the state."""

    def __init__(self, alts):
        self.alts = alts


class Dead(Exception):
    """The path cannot continue (panic, unreachable, contradiction)."""


class GiveUp(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'bb', 'dest', 'target', 'depth', 'tag')

    def __init__(self, fn, bb, dest, target, depth, tag=None):
        self.fn, self.bb, self.dest, self.target, self.depth, self.tag = fn, bb, dest, target, depth, tag


class State:
    __slots__ = ('frames', 'store', 'facts', 'mon', 'weak', 'trail', 'snap', 'done', 'seq', 'past', 'probe')

    def copy(self):
        s = State()
        s.frames = list(self.frames)
        s.store = dict(self.store)
        s.facts = self.facts.copy()
        s.mon = dict(self.mon)
        s.weak = self.weak
        s.trail = self.trail
        s.snap = dict(self.snap)
        s.past = dict(self.past)
        s.probe = self.probe
        s.done = None
        s.seq = self.seq
        return s

    # --- decisions -----------------------------------------------------------------------
    def truth(self, c):
        if isinstance(c, B):
            c = c.c
        c = c_norm(c)
        d = self.facts.decide(c)
        if d is None:
            raise Fork([[c], [c_not(c)]])
        return d

    def assume(self, c):
        if not self.facts.assume(c):
            raise Dead('contradiction')

    def ge(self, a, b):
        """Is a >= b? Forks if unknown."""
        return self.truth(('ge', lin(a) - lin(b)))

    def eq(self, a, b):
        return self.truth(('eq', lin(a) - lin(b)))

    def holds_eq(self, a, b):
        return self.facts.holds_eq(lin(a) - lin(b))

    def holds_ge(self, a, b):
        return self.facts.holds_ge(lin(a) - lin(b))

    def note(self, s):
        self.trail = (self.trail, s)

    def trail_list(self, n=40):
        out, t = [], self.trail
        while t is not None and len(out) < n:
            out.append(t[1])
            t = t[0]
        return out[::-1]


def spans(vs):
    """Views of texts and slices among the values."""
    todo = list(vs)
    while todo:
        x = todo.pop()
        if isinstance(x, (STR, SL)):
            if x.lo.t or x.hi.t:
                yield x
        elif isinstance(x, (A, IT)):
            todo += x.f
        elif isinstance(x, (tuple, list)):
            todo += x


def positions(vs):
    """Texts that are views of something, with where they start."""
    out, todo = set(), list(vs)
    while todo:
        x = todo.pop()
        if isinstance(x, STR):
            if x.t[0] != 'lit':
                out.add((x.t, x.lo))
        elif isinstance(x, (A, IT)):
            todo += x.f
        elif isinstance(x, (tuple, list)):
            todo += x
    return out


def place_in(t, y):
    """Is this worth trying as a position of a text?"""
    return bool(y.t) and not any(isinstance(a, tuple) and (a[0] in ('?', 'sgn', 'C') or a[0] == 'len' and a[1] != t) for a, _ in y.t)


def count_of(t, x):
    return ZERO if x.const == 0 else atom(('C', t, x))


class Engine:
    MAX_DEPTH = 24
    keep_items = False  # never merge items of lists that differ
    counting = False    # keep track of how many characters lie before positions of texts
    UNROLL = 0
    PANICS = False
    ENDS = False
    UNROLL_BLOCKS = 30000

    def __init__(self, prog, natives, hooks=(), monitor=None, delay=2, time_limit=120, max_blocks=400000):
        self.p = prog
        self.natives = natives
        self.hooks = list(hooks)
        self.monitor = monitor
        self.delay = delay
        self.time_limit = time_limit
        self.max_blocks = max_blocks
        self.n = 0
        self.cur = None
        self.nodes = {}
        self.edges = {}
        self.ends = {}
        self.extra = []
        self.track_ends = False
        self.returned = []
        self.unknown = {}
        self.blocks_run = 0
        self.paths = 0
        self.fns_seen = set()
        self.calls_seen = 0
        self.panics = {}
        self.widenings = 0
        self.incomplete = None
        self.track_panics = True
        # follow every loop exactly, up to this many rounds, and forget the rest
        self.unroll = Engine.UNROLL
        self.straight = False
        if self.unroll:
            self.time_limit = 300
            self.max_blocks = Engine.UNROLL_BLOCKS

    def fresh(self, tag):
        """A new name. Numbered per state, so that retrying a step invents the same names."""
        st = self.cur
        if st is None:
            self.n += 1
            return ('?', tag, ('g', self.n))
        st.seq += 1
        return ('?', tag, st.seq)

    def choose(self, st, n):
        """Splits the state into n continuations and says which one this is (once per block)."""
        c = st.mon.pop('#choice', None)
        if c is not None:
            return c

        def pick(i):
            return lambda s: s.mon.__setitem__('#choice', i)
        raise Fork([[('do', pick(i))] for i in range(n)])

    def heap(self, st, v):
        st.seq += 1
        c = ('H', st.seq)
        st.store[c] = v
        return c

    # --- values from terms ---------------------------------------------------------------
    def mk(self, term, ty):
        t = self.p.types[ty]
        k = t['k']
        if k == 'int':
            return I(atom(('sgn', term) if t['signed'] else term))
        if k == 'char':
            return I(atom(term))
        if k == 'bool':
            return B(('p', term))
        if k in ('ref', 'ptr'):
            return self.mkptr(('*', term), t['to'])
        if k == 'adt':
            if t['box'] or t['name'].endswith('sync::Arc') or t['name'].endswith('rc::Rc'):
                return self.mkptr(('*', term), t['args'][0])
            return S(term, ty)
        if k == 'tuple' and not t['els']:
            return A(ty, 0, ())
        if k == 'fndef':
            return F(ty, t['callee']['inst'])
        if k == 'closure' and not t['upvars']:
            return A(ty, 0, ())
        return S(term, ty)

    def mkptr(self, term, to):
        k = self.p.types[to]['k']
        if k == 'str':
            return STR(term, 0, atom(('len', term)))
        if k == 'slice':
            return SL(('m', term, to), (), 0, atom(('len', term)))
        return P(('m', term, to))

    def expand(self, st, v):
        """Opaque struct, tuple or enum of known variant -> aggregate of opaque fields."""
        t = self.p.types[v.ty]
        if t['k'] == 'tuple':
            return A(v.ty, 0, [self.mk(('f', v.t, 0, i), e) for i, e in enumerate(t['els'])])
        if t['k'] == 'closure':
            return A(v.ty, 0, [self.mk(('f', v.t, 0, i), e) for i, e in enumerate(t['upvars'])])
        if t['k'] == 'adt':
            var = self.variant(st, v) if t['enum'] else 0
            return A(v.ty, var, [self.mk(('f', v.t, var, i), fty) for i, (_, fty) in enumerate(t['variants'][var]['fields'])])
        raise GiveUp('expand ' + self.p.tstr(v.ty))

    def variant(self, st, v):
        if isinstance(v, A):
            return v.v
        if isinstance(v, S):
            k = st.facts.var.get(v.t)
            if k is not None:
                return k
            t = self.p.types[v.ty]
            if t['k'] != 'adt' or not t['enum']:
                raise GiveUp('variant of ' + self.p.tstr(v.ty))
            if len(t['variants']) == 1:
                return 0
            raise Fork([[('var', v.t, i)] for i in range(len(t['variants']))])
        raise GiveUp('variant of %r' % (v,))

    def only_value(self, ty, depth=4):
        """The value of a type that has only one (such a local is not always written)."""
        t = self.p.types[ty]
        if depth == 0:
            return None
        if t['k'] == 'tuple':
            fs = [self.only_value(x, depth - 1) for x in t['els']]
            return None if any(f is None for f in fs) else A(ty, 0, fs)
        if t['k'] == 'adt':
            out = []
            for i, v in enumerate(t['variants']):
                if any(self.p.types[x]['k'] == 'never' for _, x in v['fields']):
                    continue
                fs = [self.only_value(x, depth - 1) for _, x in v['fields']]
                if any(f is None for f in fs):
                    return None
                out.append(A(ty, i, fs))
            return out[0] if len(out) == 1 else None
        return None

    # --- places ----------------------------------------------------------------------------
    def get_cell(self, st, cell):
        v = st.store.get(cell)
        if v is not None:
            return v
        if cell[0] == 'kst':
            return cell[1]
        if cell[0] == 'm':
            return self.mk(cell[1], cell[2])
        if cell[0] == 'L':
            for f in st.frames:
                if f.depth == cell[1]:
                    v = self.only_value(self.p.fns[f.fn]['locals'][cell[2]])
                    if v is not None:
                        return v
        raise GiveUp('read of unset cell %s' % show(cell))

    def elem_ty(self, ty):
        t = self.p.types[ty]
        if t['k'] in ('slice', 'array'):
            return t['of']
        if t['k'] == 'adt' and t['args']:
            return t['args'][0]
        raise GiveUp('element type of ' + self.p.tstr(ty))

    def bytes_of(self, s):
        """The bytes of a text as a slice."""
        ty = self.p.find_type('[u8]')
        if ty is None:
            raise GiveUp('bytes of a text')
        return SL(('m', ('bytesof', s.t), ty), (), s.lo, s.hi)

    def byte_at(self, t, i):
        if t[0] == 'lit' and i.const is not None:
            return lin(t[1].encode('utf-8')[i.const])
        return atom(('lead', atom(('ch', t, i))))

    def elem(self, st, v, i, ety=None):
        """Element i of a sequence value."""
        i = lin(i)
        if isinstance(v, A):
            c = i.const
            if c is None:
                c = st.facts.const_of(i)
            if c is not None:
                if 0 <= c < len(v.f):
                    return v.f[c]
                raise Dead('index')
            if v.f and all(x == v.f[0] for x in v.f):
                return v.f[0]
            if len(v.f) <= 8 and v.f:
                for k in range(len(v.f)):
                    if st.eq(i, k):
                        return v.f[k]
                raise Dead('index')
            if ety is None:
                ety = self.elem_ty(v.ty)
            return self.mk(('e', ('arr', v), i), ety)
        if isinstance(v, S):
            if v.t[0] == 'rep':
                return v.t[1]
            if v.t[0] == 'bytesof':
                return I(self.byte_at(v.t[1], i))
            return self.mk(('e', v.t, i), ety if ety is not None else self.elem_ty(v.ty))
        if isinstance(v, VV):
            for t, lo, hi in v.segs:
                if st.holds_ge(i, lo) and st.holds_ge(hi - 1, i):
                    return subst_val(t, {IDX: i})
            for t, lo, hi in v.segs:
                if st.ge(i, lo) and st.ge(hi - 1, i):
                    return subst_val(t, {IDX: i})
            raise Dead('index')
        if isinstance(v, VO):
            r = self.monitor.vec_read(st, v, i) if self.monitor else None
            if r is not None:
                return r
            return self.mk(('e', ('vo', v.tag, self.fresh('r')), i), self.elem_ty(v.ty))
        raise GiveUp('element of %r' % (v,))

    def proj(self, st, v, path):
        var = None
        n = 0
        for e in path:
            k = e[0]
            if k == 'v':
                var = e[1]
                if isinstance(v, A) and v.v != var:
                    raise Dead('downcast')
                if isinstance(v, S):
                    cur = st.facts.var.get(v.t)
                    if cur is None:
                        t = self.p.types[v.ty]
                        if t['k'] == 'adt' and t['enum'] and len(t['variants']) > 1:
                            raise Fork([[('var', v.t, i)] for i in range(len(t['variants']))])
                    elif cur != var:
                        raise Dead('downcast')
            elif k == 'f':
                if isinstance(v, A):
                    if e[1] >= len(v.f):
                        raise GiveUp('field')
                    v = v.f[e[1]]
                elif isinstance(v, P):
                    pass          # Box/Unique/NonNull wrappers around a pointer
                elif isinstance(v, (SL, STR)):
                    pass
                elif isinstance(v, S):
                    v = self.mk(('f', v.t, var or 0, e[1]), e[2])
                elif isinstance(v, IT):
                    raise GiveUp('field of library object %s' % v.kind)
                else:
                    raise GiveUp('field of %r' % (v,))
                var = None
            elif k == 'i':
                v = self.elem(st, v, e[1], e[2] if len(e) > 2 else None)
            else:
                raise GiveUp('projection %s' % k)
        return v

    def read(self, st, cell, path):
        return self.proj(st, self.get_cell(st, cell), path)

    def upd(self, st, v, path, new):
        if not path:
            return new
        e, rest = path[0], path[1:]
        if e[0] == 'v':
            if isinstance(v, S):
                v = self.expand(st, v)
            return self.upd(st, v, rest, new)
        if e[0] == 'f':
            if isinstance(v, P):
                return self.upd(st, v, rest, new)
            if isinstance(v, S):
                v = self.expand(st, v)
            if not isinstance(v, A):
                raise GiveUp('write field of %r' % (v,))
            f = list(v.f)
            f[e[1]] = self.upd(st, f[e[1]], rest, new)
            return A(v.ty, v.v, f)
        if e[0] == 'i':
            i = e[1]
            c = i.const
            if c is None:
                c = st.facts.const_of(i)
            if isinstance(v, A) and c is not None:
                f = list(v.f)
                f[c] = self.upd(st, f[c], rest, new)
                return A(v.ty, v.v, f)
            if isinstance(v, S) and self.p.types[v.ty]['k'] in ('array', 'slice', 'adt'):
                return S(('upd', v.t, i, self.upd(st, self.elem(st, v, i), rest, new)), v.ty)
            if isinstance(v, VV):
                x = self.upd(st, self.elem(st, v, i), rest, new)
                segs = []
                for t, lo, hi in v.segs:
                    if st.ge(i, lo) and st.ge(hi - 1, i):
                        segs += [(t, lo, i), (x, i, i + 1), (t, i + 1, hi)]
                    else:
                        segs.append((t, lo, hi))
                return VV(v.ty, [s for s in segs if not st.holds_eq(s[1], s[2])], v.n)
        raise GiveUp('write %s of %r' % (e[0], v))

    def write(self, st, cell, path, new):
        if cell[0] == 'kst':
            raise GiveUp('write to constant')
        if path:
            new = self.upd(st, self.get_cell(st, cell), path, new)
        st.store[cell] = new
        if self.monitor:
            self.monitor.written(st, cell, path)

    def resolve(self, st, depth, pl):
        """MIR place -> ('p', cell, path) | ('sl', SL) | ('str', STR)."""
        cell, path = ('L', depth, pl[0]), ()
        sl = None
        for e in pl[1]:
            k = e[0]
            if k == 'd':
                if sl is not None:
                    raise GiveUp('deref of unsized')
                v = self.read(st, cell, path)
                if isinstance(v, P):
                    cell, path = v.cell, v.path
                elif isinstance(v, SL):
                    sl = v
                elif isinstance(v, STR):
                    sl = v
                elif isinstance(v, S):
                    raise GiveUp('deref of %r' % (v,))
                else:
                    raise GiveUp('deref of %r' % (v,))
            elif k == 'f':
                path = path + (('f', e[1], e[2]),)
            elif k == 'v':
                path = path + (('v', e[1]),)
            elif k in ('i', 'ci'):
                if k == 'i':
                    ix = self.read(st, ('L', depth, e[1]), ())
                    if not isinstance(ix, I):
                        raise GiveUp('index %r' % (ix,))
                    ix = ix.l
                if isinstance(sl, STR):
                    sl = self.bytes_of(sl)
                if sl is not None:
                    if k == 'ci':
                        ix = (sl.hi - e[1]) if e[3] else (sl.lo + e[1])
                    else:
                        ix = sl.lo + ix
                    cell, path = sl.cell, sl.path + (('i', ix),)
                    sl = None
                else:
                    if k == 'ci':
                        if e[3]:
                            raise GiveUp('from-end index')
                        ix = lin(e[1])
                    path = path + (('i', ix),)
            elif k == 'ss':
                if isinstance(sl, STR):
                    sl = self.bytes_of(sl)
                if not isinstance(sl, SL):
                    raise GiveUp('subslice')
                sl = SL(sl.cell, sl.path, sl.lo + e[1], (sl.hi - e[2]) if e[3] else (sl.lo + e[2]))
            elif k == 'oc':
                pass
            else:
                raise GiveUp('place ' + k)
        if sl is not None:
            return ('sl', sl) if isinstance(sl, SL) else ('str', sl)
        return ('p', cell, path)

    def read_place(self, st, depth, pl):
        r = self.resolve(st, depth, pl)
        if r[0] == 'p':
            return self.read(st, r[1], r[2])
        return r[1]

    def write_place(self, st, depth, pl, v):
        r = self.resolve(st, depth, pl)
        if r[0] != 'p':
            raise GiveUp('write to unsized place')
        self.write(st, r[1], r[2], v)

    # --- constants and operands --------------------------------------------------------------
    def const(self, ty, j):
        if j is None:
            return self.mk(('const', self.fresh('k')), ty)
        if 'b' in j:
            return B(j['b'])
        if 'i' in j:
            return I(j['i'])
        if 'ch' in j:
            return I(j['ch'])
        if 'fl' in j:
            return FL(j['fl'])
        if 'str' in j:
            return STR(('lit', j['str']), 0, len(j['str'].encode('utf-8')))
        if 'slice' in j:
            vs = [self.const(self.elem_ty_of_ref(j['t']), x) for x in j['slice']]
            return SL(('kst', A(None, 0, vs)), (), 0, len(vs))
        if 'ref' in j:
            return P(('kst', self.const(self.p.types[j['t']]['to'], j['ref'])))
        if 'agg' in j:
            t = self.p.types[j['t']]
            if t['k'] == 'tuple':
                tys = t['els']
            else:
                tys = [f[1] for f in t['variants'][j['v']]['fields']]
            return A(j['t'], j['v'], [self.const(a, x) for a, x in zip(tys, j['agg'])])
        if 'arr' in j:
            e = self.p.types[j['t']]['of']
            return A(j['t'], 0, [self.const(e, x) for x in j['arr']])
        if 'zst' in j:
            t = self.p.types[j['zst']]
            if t['k'] == 'fndef':
                return F(j['zst'], t['callee']['inst'])
            return A(j['zst'], 0, ())
        if 'static' in j:
            return P(('m', ('static', j['static']), self.p.types[j['t']]['to']))
        if 'fnp' in j:
            return F(None, j['fnp'])
        return self.mk(('const', self.fresh('k')), ty)

    def elem_ty_of_ref(self, t):
        return self.elem_ty(self.p.types[t]['to'])

    def operand(self, st, depth, o):
        if o[0] in ('c', 'm'):
            return self.read_place(st, depth, o[1])
        if o[0] == 'k':
            return self.const(o[1], o[2])
        if o[0] == 'rc':
            return B(False)
        raise GiveUp('operand')

    # --- rvalues -------------------------------------------------------------------------------
    def cmp_cond(self, op, a, b):
        d = a - b
        if op == 'Eq':
            return ('eq', d)
        if op == 'Ne':
            return ('ne', d)
        if op == 'Lt':
            return ('ge', -d - 1)
        if op == 'Le':
            return ('ge', -d)
        if op == 'Gt':
            return ('ge', d - 1)
        if op == 'Ge':
            return ('ge', d)

    def binop(self, st, op, a, b, ty):
        if op.endswith('Unchecked'):
            op = op[:-9]
        if isinstance(a, I) and isinstance(b, I):
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return B(c_norm(self.cmp_cond(op, a.l, b.l)))
            if op == 'Add':
                return I(a.l + b.l)
            if op == 'Sub':
                return I(a.l - b.l)
            if op == 'Mul':
                if a.l.const is not None:
                    return I(b.l.scale(a.l.const))
                if b.l.const is not None:
                    return I(a.l.scale(b.l.const))
            if op == 'Cmp':
                oty = self.p.find_type('std::cmp::Ordering')
                if st.ge(a.l, b.l):
                    return A(oty, 1 if st.eq(a.l, b.l) else 2, ())
                return A(oty, 0, ())
            x, y = a.l.const, b.l.const
            if x is not None and y is not None:
                r = {'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                     'Shl': lambda: x << y, 'Shr': lambda: x >> y,
                     'Div': lambda: x // y if y else 0, 'Rem': lambda: x % y if y else 0}.get(op)
                if r:
                    return I(r())
            return I(atom(('op', op, a.l, b.l)))
        if isinstance(a, B) and isinstance(b, B):
            if op == 'Eq' and b.c in (True, False):
                return a if b.c else B(c_not(a.c))
            if op == 'Ne' and b.c in (True, False):
                return B(c_not(a.c)) if b.c else a
            x, y = st.truth(a), st.truth(b)
            r = {'Eq': x == y, 'Ne': x != y, 'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y,
                 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]
            return B(r)
        if isinstance(a, (FL, S)) and isinstance(b, (FL, S)):
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                if op == 'Ne':
                    return B(('np', ('fcmp', 'Eq', a, b)))
                return B(('p', ('fcmp', op, a, b)))
            return S(('fop', op, a, b), ty)
        if op in ('Eq', 'Ne') and isinstance(a, P) and isinstance(b, P):
            if a == b:
                return B(op == 'Eq')
            t = ('ptreq', a, b)
            return B(('p' if op == 'Eq' else 'np', t))
        raise GiveUp('%s of %r and %r' % (op, a, b))

    def int_range(self, ty):
        t = self.p.types[ty]
        if t['k'] == 'char':
            return 0, 0x10ffff
        if t['k'] != 'int':
            return None
        b = t['bits']
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t['signed'] else (0, (1 << b) - 1)

    def cast(self, st, kind, v, to, frm):
        if isinstance(v, (P, SL, STR, F)):
            if 'Unsize' in kind or 'PointerCoercion' in kind:
                tt = self.p.types[to]
                if isinstance(v, P) and tt['k'] in ('ref', 'ptr') and self.p.types[tt['to']]['k'] == 'slice':
                    ft = self.p.types[frm]
                    n = self.p.types[ft['to']].get('len')
                    return SL(v.cell, v.path, 0, n)
                if isinstance(v, P) and tt['k'] == 'adt' and tt['box'] and self.p.types[tt['args'][0]]['k'] == 'slice':
                    n = self.p.types[self.p.types[frm]['args'][0]].get('len')
                    return SL(v.cell, v.path, 0, n)
            return v
        if isinstance(v, A) and v.ty is not None and self.p.types[v.ty]['k'] == 'closure':
            return v
        if isinstance(v, I):
            rt = self.int_range(to)
            if rt is None:
                if self.p.types[to]['k'] == 'float':
                    return S(('i2f', v.l), to)
                raise GiveUp('cast to ' + self.p.tstr(to))
            lo, hi = rt
            c = v.l.const
            if c is not None:
                if lo <= c <= hi:
                    return v
                m = hi - lo + 1
                return I((c - lo) % m + lo)
            rf = self.int_range(frm)
            if rf and rf[0] >= lo and rf[1] <= hi:
                return v
            if st.holds_ge(v.l, lo) and st.holds_ge(hi, v.l):
                return v
            if lo < 0:
                return I(atom(('sgn', ('cast', to, v.l))))
            return I(atom(('cast', to, v.l)))
        if isinstance(v, B):
            return I(1) if st.truth(v) else I(0)
        if isinstance(v, (S, FL)):
            t = self.p.types[to]
            if t['k'] == 'int':
                if isinstance(v, FL):
                    lo, hi = self.int_range(to)
                    x = struct.unpack('<d', struct.pack('<Q', v.bits))[0]
                    return I(0 if x != x else lo if x <= lo else hi if x >= hi else int(x))
                x = ('f2i', v.t if isinstance(v, S) else v)
                return I(atom(('sgn', x) if t['signed'] else x))
            if t['k'] == 'float':
                return v
            if isinstance(v, S):
                return self.mk(('cast', to, v.t), to)
        if isinstance(v, A) and not v.f:
            # field-less enum to integer
            t = self.p.types[v.ty]
            if t['k'] == 'adt' and t['enum']:
                return I(t['variants'][v.v]['discr'])
        raise GiveUp('cast %s of %r' % (kind, v))

    def rvalue(self, st, fr, rv, dty=None):
        k = rv[0]
        d = fr.depth
        if k == 'use':
            return self.operand(st, d, rv[1])
        if k in ('ref', 'addr'):
            r = self.resolve(st, d, rv[1])
            if r[0] == 'p':
                # reference to an unsized or reborrowed place keeps its own representation
                return P(r[1], r[2])
            return r[1]
        if k == 'agg':
            vs = [self.operand(st, d, o) for o in rv[4]]
            if rv[1] in ('adt', 'tuple', 'closure', 'array'):
                return A(rv[2], rv[3], vs)
            if rv[1] == 'rawptr':
                v = vs[0]
                if isinstance(v, P) and len(vs) > 1 and isinstance(vs[1], I):
                    return SL(v.cell, v.path, 0, vs[1].l)
                return v
            raise GiveUp('aggregate ' + rv[1])
        if k == 'bin':
            return self.binop(st, rv[1], self.operand(st, d, rv[2]), self.operand(st, d, rv[3]), dty)
        if k == 'cbin':
            a, b = self.operand(st, d, rv[2]), self.operand(st, d, rv[3])
            return A(dty, 0, [self.binop(st, rv[1], a, b, None), B(False)])
        if k == 'cast':
            return self.cast(st, rv[1], self.operand(st, d, rv[2]), rv[3], rv[4])
        if k == 'discr':
            v = self.read_place(st, d, rv[1])
            if isinstance(v, B):
                return I(1 if st.truth(v) else 0)
            var = self.variant(st, v)
            if v.ty is None:
                return I(var)
            return I(self.p.types[v.ty]['variants'][var]['discr'])
        if k == 'len':
            r = self.resolve(st, d, rv[1])
            if r[0] == 'sl':
                return I(r[1].hi - r[1].lo)
            v = self.read(st, r[1], r[2])
            if isinstance(v, A):
                return I(len(v.f))
            raise GiveUp('len')
        if k == 'repeat':
            v = self.operand(st, d, rv[1])
            n = rv[2]
            if n is not None and n <= 16:
                return A(dty, 0, [v] * n)
            return S(('rep', v, n), dty)
        if k == 'un':
            v = self.operand(st, d, rv[2])
            if rv[1] == 'Not':
                if isinstance(v, B):
                    return B(c_not(v.c))
                return I(atom(('op', 'Not', v.l)))
            if rv[1] == 'Neg':
                if isinstance(v, I):
                    return I(-v.l)
                return S(('fneg', v), dty)
            if rv[1] == 'PtrMetadata':
                if isinstance(v, (SL, STR)):
                    return I(v.hi - v.lo)
                return A(None, 0, ())
            raise GiveUp('unary ' + rv[1])
        if k == 'tls':
            raise GiveUp('thread local')
        raise GiveUp('rvalue ' + k)

    # --- running -------------------------------------------------------------------------------
    def start(self, fid, args, setup=None):
        st = State()
        st.frames = [Frame(fid, 0, None, None, 0)]
        st.store = {}
        st.facts = Facts()
        st.mon = {}
        st.weak = None
        st.trail = None
        st.snap = {}
        st.past = {}
        st.probe = None
        st.done = None
        st.seq = 0
        for i, v in enumerate(args):
            st.store[('L', 0, i + 1)] = v
        if setup:
            setup(st)
        return st

    def run(self, states):
        """Explores until every reachable abstract state is covered."""
        t0 = time.time()
        from collections import deque
        work = deque(states)
        while work:
            if time.time() - t0 > self.time_limit or self.blocks_run > self.max_blocks:
                self.incomplete = 'budget'
                break
            st = work.popleft() if self.unroll else work.pop()
            try:
                out = self.step_block(st)
            except Dead:
                self.paths += 1
                continue
            except GiveUp as g:
                self.paths += 1
                fr = st.frames[-1]
                where = self.p.fns[fr.fn]['name']
                self.unknown.setdefault((where, str(g)), 0)
                self.unknown[(where, str(g))] += 1
                continue
            work.extend(out)
            if self.extra:
                work.extend(self.extra)
                self.extra = []
        return self

    def step_block(self, st):
        try:
            s = st.copy()
            fr = s.frames[-1]
            if fr.bb in self.p.loop_heads(fr.fn) and st.done != 'head':
                s = self.at_head(s)
                if s is None:
                    self.paths += 1
                    return []
                st2 = s.copy()
                st2.done = 'head'
                st = st2
                s = st.copy()
            return self.exec_block(s)
        except Fork as f:
            out = []
            if st.probe is not None:
                return out
            for alt in f.alts:
                s = st.copy()
                s.done = st.done
                try:
                    self.assume_all(s, alt)
                except Dead:
                    continue
                out.append(s)
            return out

    def assume_all(self, s, alt):
        for c in alt:
            if isinstance(c, tuple) and c[0] == 'var':
                cur = s.facts.var.get(c[1])
                if cur is not None and cur != c[2]:
                    raise Dead('variant')
                s.facts.var[c[1]] = c[2]
            elif isinstance(c, tuple) and c[0] == 'do':
                c[1](s)
            else:
                s.assume(c)

    def exec_block(self, st):
        self.blocks_run += 1
        self.cur = st
        fr = st.frames[-1]
        f = self.p.fns[fr.fn]
        self.fns_seen.add(fr.fn)
        stmts, term, span = f['blocks'][fr.bb]
        d = fr.depth
        for s in stmts:
            rv = s[1]
            if rv[0] == 'dead':
                st.store.pop(('L', d, s[0]), None)
                continue
            if rv[0] == 'setdiscr':
                r = self.resolve(st, d, s[0])
                v = self.read(st, r[1], r[2])
                self.write(st, r[1], r[2], A(v.ty, rv[1], getattr(v, 'f', ())))
                continue
            dty = f['locals'][s[0][0]] if not s[0][1] else (s[0][1][-1][2] if s[0][1][-1][0] == 'f' else None)
            v = self.rvalue(st, fr, rv, dty)
            if not s[0][1]:
                st.store[('L', d, s[0][0])] = v
            else:
                self.write_place(st, d, s[0], v)
        k = term[0]
        if k == 'goto':
            return self.goto(st, term[1])
        if k == 'drop':
            return self.goto(st, term[2])
        if k == 'switch':
            v = self.operand(st, d, term[1])
            if isinstance(v, B):
                x = 1 if st.truth(v) else 0
                for val, t in term[3]:
                    if val == x:
                        return self.goto(st, t)
                return self.goto(st, term[4])
            if isinstance(v, I):
                c = v.l.const
                if c is None:
                    c = st.facts.const_of(v.l)
                if c is None:
                    alts = []
                    for val, t in term[3]:
                        val = self.sx(val, term[2])
                        alts.append([('eq', v.l - val)])
                    alts.append([('ne', v.l - self.sx(val, term[2])) for val, t in term[3]])
                    # decided by facts?
                    for val, t in term[3]:
                        if st.facts.decide(('eq', v.l - self.sx(val, term[2]))) is True:
                            return self.goto(st, t)
                    if all(st.facts.decide(('eq', v.l - self.sx(val, term[2]))) is False for val, t in term[3]):
                        return self.goto(st, term[4])
                    raise Fork(alts)
                for val, t in term[3]:
                    if self.sx(val, term[2]) == c:
                        return self.goto(st, t)
                return self.goto(st, term[4])
            raise GiveUp('switch on %r' % (v,))
        if k == 'assert':
            self.do_assert(st, fr, term, span)
            return self.goto(st, term[4])
        if k == 'return':
            return self.do_return(st)
        if k == 'call':
            return self.do_call(st, fr, term, span)
        if k == 'unreachable':
            raise Dead('unreachable')
        raise Dead(k)

    def sx(self, val, ty):
        r = self.int_range(ty)
        if r and r[0] < 0:
            m = r[1] - r[0] + 1
            if val > r[1]:
                return val - m
        return val

    def goto(self, st, bb):
        fr = st.frames[-1]
        st.frames[-1] = Frame(fr.fn, bb, fr.dest, fr.target, fr.depth, fr.tag)
        st.done = None
        return [st]

    def panic_site(self, st, fr, kind, cond, span, detail=''):
        """A point that would panic unless cond holds. Records whether the state proves it."""
        if not self.track_panics:
            if cond is not None and c_norm(cond) is not True:
                st.assume(cond)
            return
        if cond is not None:
            cond = c_norm(cond)
        if cond is True:
            return self.panic_note(st, fr, kind, 'ok', span, None)
        if cond is False:
            cond = None
        if cond is not None and cond[0] == 'ge':
            for a, _ in cond[1].t:
                if isinstance(a, tuple) and a[0] == 'lead':
                    st.assume(('ge', lin(255) - atom(a)))
        ok = st.facts.decide(cond) if cond is not None else False
        if ok is not True and cond is not None and self.monitor is not None and self.monitor.wellformed(st, cond):
            st.assume(cond)
            ok = True
        hard = st.weak is None and (cond is None or not self.imprecise(cond))
        self.panic_note(st, fr, kind, 'ok' if ok is True else 'sure' if hard else 'open', span, cond)
        if ok is True:
            return
        if cond is None or ok is False:
            raise Dead('panic')
        st.assume(cond)

    def panic_note(self, st, fr, kind, verdict, span, what):
        """Files a verdict under the function of the library that made the call."""
        fn, n = fr.fn, self.site_no(fr, span)
        for x in reversed(st.frames):
            if self.p.fns[x.fn]['crate'].startswith('piston_meta'):
                if x is not fr:
                    fn, n, span = x.fn, x.bb, 'in ' + self.p.fns[x.fn]['name']
                break
        key = (self.p.fns[fn]['name'], kind, n)
        r = self.panics.setdefault(key, {'ok': 0, 'open': 0, 'sure': 0, 'span': span, 'ex': None, 'what': None})
        r[verdict] += 1
        if verdict != 'ok' and (r['ex'] is None or verdict == 'sure' and r['ex'][0] != 'sure'):
            r['ex'] = (verdict, what, list(st.trail_list()), st.weak, span)

    def bnd(self, st, t, pos):
        """The position is between two characters of the text."""
        if self.track_panics:
            st.assume(('p', ('bnd', t, lin(pos))))

    def boundary(self, st, s, pos):
        """Whether a position of the text of slice s is between two characters: ok, sure (that it need not be), open."""
        if s.t[0] == 'lit' and pos.const is not None:
            b = s.t[1].encode('utf-8')
            return 'ok' if pos.const >= len(b) or b[pos.const] & 0xc0 != 0x80 else 'sure'
        known = [ZERO, s.lo, s.hi, atom(('len', s.t))] + [x[2] for x, v in st.facts.pred.items() if v and x[0] == 'bnd' and x[1] == s.t]
        for k in known:
            if st.holds_eq(pos, k):
                return 'ok'
        verdict = 'open'
        for k in known:
            d = pos - k
            if d.const is None:
                continue
            if d.const == 1:
                ch = atom(('ch', s.t, k))
                for x in (ch, atom(('lead', ch))):
                    if st.facts.decide(('ge', lin(127) - x)) is True:
                        return 'ok'
            # outside the exact pass, what the text said there may have been forgotten at the head of a loop
            if (self.unroll or self.straight or not self.nodes) and not self.imprecise(('ge', pos)):
                verdict = 'sure'
        return verdict

    def site_no(self, fr, span):
        return fr.bb

    def imprecise(self, x):
        out = set()
        walk_atoms(x[1] if isinstance(x, tuple) and x and x[0] in ('ge', 'eq', 'ne', 'p', 'np') else x, out)
        return any(isinstance(a, tuple) and len(a) == 3 and a[0] == '?' and a[1] in ('phi', 'delta', 'unk', 'any') for a in out)

    def do_assert(self, st, fr, term, span):
        msg = term[3]
        d = fr.depth
        if msg[0] == 'overflow':
            a, b = self.operand(st, d, msg[2]), self.operand(st, d, msg[3])
            if isinstance(a, I) and isinstance(b, I):
                if msg[1].startswith('Sub'):
                    self.panic_site(st, fr, 'subtraction', ('ge', a.l - b.l), span)
                elif msg[1].startswith('Mul') and a.l.const is None and b.l.const is None:
                    pass
                elif msg[1].startswith('Mul') or msg[1].startswith('Add'):
                    x = a.l + b.l if msg[1].startswith('Add') else (a.l.scale(b.l.const) if b.l.const is not None else b.l.scale(a.l.const))
                    if any(isinstance(t, tuple) and t[0] == 'f2i' for t, _ in x.t):
                        self.panic_site(st, fr, 'multiplication', ('ge', lin((1 << 64) - 1) - x), span)
            return
        if msg[0] == 'bounds':
            n, i = self.operand(st, d, msg[1]), self.operand(st, d, msg[2])
            self.panic_site(st, fr, 'index', ('ge', n.l - i.l - 1), span)
            return
        v = self.operand(st, d, term[1])
        if isinstance(v, B):
            if st.truth(v) != term[2]:
                raise Dead('assert')

    # --- calls -----------------------------------------------------------------------------------
    def do_return(self, st):
        fr = st.frames.pop()
        v = st.store.get(('L', fr.depth, 0))
        if v is None:
            rt = self.p.fns[fr.fn]['locals'][0]
            v = A(rt, 0, ())
        for c in [c for c in st.store if c[0] == 'L' and c[1] == fr.depth]:
            del st.store[c]
        for h in [h for h in st.snap if len(h) > len(st.frames)]:
            del st.snap[h]
        if not st.frames:
            self.paths += 1
            st.done = 'ret'
            self.returned.append((st, v))
            if self.monitor:
                self.on_return(st, v)
            return []
        if fr.tag is not None and self.monitor:
            self.monitor.inlined_return(st, fr.tag, v)
        cell, path = fr.dest
        self.write(st, cell, path, v)
        return self.goto(st, fr.target)

    def on_return(self, st, v):
        # the monitor may need to split the state
        work = [st]
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > 400:
                raise GiveUp('return splits')
            try:
                c = s.copy()
                self.monitor.returned(c, v)
            except Fork as f:
                for alt in f.alts:
                    c = s.copy()
                    try:
                        self.assume_all(c, alt)
                    except Dead:
                        continue
                    work.append(c)
            except Dead:
                pass

    def do_call(self, st, fr, term, span):
        self.calls_seen += 1
        callee, aops, dest, target, atys = term[1], term[2], term[3], term[4], term[5]
        args = [self.operand(st, fr.depth, o) for o in aops]
        if 'op' in callee:
            fv = self.operand(st, fr.depth, callee['op'])
            return self.call_value(st, fr, fv, args, dest, target, span, None)
        fid = callee['inst']
        rty = self.place_ty(fr, dest)
        if callee['def'] in CALL_TRAITS:
            # "rust-call": the arguments arrive as one tuple
            t = args[1]
            if isinstance(t, S):
                t = self.expand(st, t)
            return self.call_value(st, fr, args[0], list(t.f), dest, target, span, rty)
        if fid is None:
            return self.call_unknown(st, fr, callee['def'], args, rty, dest, target)
        return self.call_fn(st, fr, fid, args, rty, dest, target, span)

    def place_ty(self, fr, pl):
        f = self.p.fns[fr.fn]
        if not pl[1]:
            return f['locals'][pl[0]]
        for e in reversed(pl[1]):
            if e[0] == 'f':
                return e[2]
            break
        raise GiveUp('type of place')

    def call_value(self, st, fr, fv, args, dest, target, span, rty):
        rty = rty if rty is not None else self.place_ty(fr, dest)
        if isinstance(fv, P):
            fv2 = self.read(st, fv.cell, fv.path)
            if isinstance(fv2, (F, P)) or (isinstance(fv2, S)):
                return self.call_value(st, fr, fv2, args, dest, target, span, rty)
            if isinstance(fv2, A) and self.p.types[fv2.ty]['k'] == 'closure':
                t = self.p.types[fv2.ty]
                return self.call_fn(st, fr, t['fn'], [fv] + args, rty, dest, target, span)
        if isinstance(fv, F) and fv.fn is not None:
            return self.call_fn(st, fr, fv.fn, args, rty, dest, target, span)
        if isinstance(fv, A) and fv.ty is not None and self.p.types[fv.ty]['k'] == 'closure':
            t = self.p.types[fv.ty]
            body = self.p.fns[t['fn']]
            env = fv
            if 'locals' in body and self.p.types[body['locals'][1]]['k'] == 'ref':
                env = P(self.heap(st, fv))
            return self.call_fn(st, fr, t['fn'], [env] + args, rty, dest, target, span)
        if isinstance(fv, S):
            for h in self.hooks:
                r = h.call_opaque(self, st, fr, fv, args, rty, span)
                if r is not None:
                    return self.finish(st, dest, target, r)
        return self.call_unknown(st, fr, 'value %r' % (fv,), args, rty, dest, target)

    def finish(self, st, dest, target, v):
        fr = st.frames[-1]
        self.write_place(st, fr.depth, dest, v)
        if target is None:
            raise Dead('no return')
        return self.goto(st, target)

    def call_fn(self, st, fr, fid, args, rty, dest, target, span):
        f = self.p.fns[fid]
        for h in self.hooks:
            r = h.call(self, st, fr, f, fid, args, rty, span)
            if r is not None:
                if isinstance(r, tuple) and r[0] == 'inline':
                    return self.inline(st, fr, r[1], r[2], dest, target, tag=r[3] if len(r) > 3 else None)
                return self.finish(st, dest, target, r)
        r = self.natives.call(self, st, fr, f, fid, args, rty, span)
        if r is not None:
            if isinstance(r, tuple):
                if r[0] == 'callv':
                    return self.call_value(st, fr, r[1], r[2], dest, target, span, rty)
                if r[0] == 'inline':
                    return self.inline(st, fr, r[1], r[2], dest, target)
            return self.finish(st, dest, target, r)
        if f.get('model') is not None:
            return self.inline(st, fr, f['model'], args, dest, target)
        if 'blocks' in f:
            if len(st.frames) >= (200 if self.straight else self.MAX_DEPTH) or sum(1 for x in st.frames if x.fn == fid) >= (20 if self.straight else 2):
                raise GiveUp('recursion in ' + f['name'])
            return self.inline(st, fr, fid, args, dest, target)
        # enum or struct constructor used as a function
        t = self.p.types[rty]
        if t['k'] == 'adt' and f['def'].rsplit('::', 1)[0].split('<')[0] == t['name'].split('<')[0] or (
                t['k'] == 'adt' and f['def'].split('::')[-1] in [v['name'] for v in t['variants']]):
            nm = f['def'].split('::')[-1]
            for i, v in enumerate(t['variants']):
                if v['name'] == nm and len(v['fields']) == len(args):
                    return self.finish(st, dest, target, A(rty, i, args))
        if target is None:
            self.panic_site(st, fr, 'call to ' + f['def'].split('::')[-1], None, span)
            raise Dead('diverges')
        return self.call_unknown(st, fr, f['name'], args, rty, dest, target)

    def call_unknown(self, st, fr, name, args, rty, dest, target):
        self.unknown.setdefault((name, 'not modelled'), 0)
        self.unknown[(name, 'not modelled')] += 1
        st.weak = name
        for a in args:
            self.havoc(st, a)
        if target is None:
            raise Dead('diverges')
        return self.finish(st, dest, target, self.mk(('unk', self.fresh('unk')), rty))

    def havoc(self, st, a):
        if isinstance(a, P) and a.cell[0] != 'kst':
            try:
                v = self.read(st, a.cell, a.path)
            except GiveUp:
                return
            ty = getattr(v, 'ty', None)
            if ty is not None and isinstance(v, (S, A)) and a.cell[0] in ('L', 'H'):
                try:
                    self.write(st, a.cell, a.path, self.mk(('unk', self.fresh('unk')), ty))
                except GiveUp:
                    pass

    def inline(self, st, fr, fid, args, dest, target, tag=None):
        f = self.p.fns[fid]
        if 'blocks' not in f:
            raise GiveUp('no body for ' + f['name'])
        if target is None:
            target = -1
        n = f['argc']
        if len(args) != n:
            # "rust-call": the last argument is a tuple to spread
            if len(args) == 2 and isinstance(args[1], (A, S)):
                t = args[1]
                if isinstance(t, S):
                    t = self.expand(st, t)
                args = [args[0]] + list(t.f)
            if len(args) != n:
                raise GiveUp('arity of ' + f['name'])
        if n >= 1 and isinstance(args[0], A) and args[0].ty is not None \
                and self.p.types[args[0].ty]['k'] == 'closure' and self.p.types[f['locals'][1]]['k'] == 'ref':
            args = [P(self.heap(st, args[0]))] + list(args[1:])
        if f.get('spread') is not None:
            pass
        r = self.resolve(st, fr.depth, dest)
        if r[0] != 'p':
            raise GiveUp('destination')
        depth = fr.depth + 1
        if depth > (200 if self.straight else self.MAX_DEPTH):
            raise GiveUp('depth')
        st.frames.append(Frame(fid, 0, (r[1], r[2]), target, depth, tag))
        for i, a in enumerate(args):
            st.store[('L', depth, i + 1)] = a
        st.done = None
        return [st]

    # --- loop heads ------------------------------------------------------------------------------
    def context(self, st):
        return tuple((f.fn, f.bb) for f in st.frames)

    def rigid(self, a):
        """Names fixed for the whole analysis (inputs), as opposed to ones invented on the way."""
        if isinstance(a, tuple):
            if len(a) == 3 and a[0] == '?':
                return False
            return all(self.rigid(x) for x in a)
        if isinstance(a, Lin):
            return all(self.rigid(x) for x, _ in a.t)
        if isinstance(a, V):
            out = set()
            walk_atoms(a, out)
            return not any(isinstance(x, tuple) and len(x) == 3 and x[0] == '?' for x in out)
        return True

    def live_roots(self, st):
        roots = []
        for i, fr in enumerate(st.frames):
            live, taken = self.p.liveness(fr.fn)
            if i == len(st.frames) - 1:
                lv = live[fr.bb]
            else:
                # the caller resumes at the block after the call
                tgt = st.frames[i + 1].target
                lv = live[tgt] if tgt is not None and tgt >= 0 else set()
            for l in sorted(lv | taken):
                c = ('L', fr.depth, l)
                if c in st.store:
                    roots.append(c)
        return roots

    def canon(self, st):
        """Drops unreachable cells, renames heap cells in traversal order, prunes facts."""
        for name in list(st.mon):
            pass
        roots = self.live_roots(st)
        ren, order, seen = {}, [], set()
        store = st.store
        todo = list(roots)
        extra = [c for c in store if c[0] in ('m', 's')]
        extra.sort(key=repr)
        queue = todo + extra

        def visit_cells(v, out):
            if isinstance(v, P) or isinstance(v, SL):
                out.append(v.cell)
                if v.cell[0] == 'kst':
                    visit_cells(v.cell[1], out)
            elif isinstance(v, (A, IT)):
                for x in v.f:
                    if isinstance(x, V):
                        visit_cells(x, out)
            elif isinstance(v, VV):
                for t, _, _ in v.segs:
                    visit_cells(t, out)

        monvals = []
        for k in sorted(st.mon, key=repr):
            if isinstance(st.mon[k], V):
                monvals.append(st.mon[k])
        idx = 0
        cells = list(queue)
        for v in monvals:
            out = []
            visit_cells(v, out)
            cells.extend(out)
        while idx < len(cells):
            c = cells[idx]
            idx += 1
            if c in seen:
                continue
            seen.add(c)
            if c[0] == 'H':
                ren[c] = ('H', ('c', len(ren)))
            order.append(c)
            v = store.get(c)
            if v is not None:
                out = []
                visit_cells(v, out)
                cells.extend(out)
        need = any(k != v for k, v in ren.items())
        new = {}
        for c in order:
            v = store.get(c)
            if v is None:
                continue
            new[ren.get(c, c)] = self.rename_cells(v, ren) if need else v
        st.store = new
        if need:
            for k in list(st.mon):
                if isinstance(st.mon[k], V):
                    st.mon[k] = self.rename_cells(st.mon[k], ren)
            st.frames = [Frame(f.fn, f.bb, (ren.get(f.dest[0], f.dest[0]), f.dest[1]) if f.dest else None,
                               f.target, f.depth, f.tag) for f in st.frames]
        # vectors that grow: fold equal neighbours
        for c, v in list(st.store.items()):
            n = self.coalesce(st, v)
            if n is not v:
                st.store[c] = n
        for k, v in list(st.mon.items()):
            if isinstance(v, V):
                st.mon[k] = self.coalesce(st, v)
        if not self.unroll:
            forget_widths(self, st)
        # facts about names that nothing mentions any more
        live = set()
        for v in st.store.values():
            walk_atoms(v, live)
        for c in st.store:
            walk_atoms(c, live)
        for v in st.mon.values():
            if isinstance(v, (V, Lin, tuple)):
                walk_atoms(v, live)

        live_lins = []
        for x in list(st.store) + list(st.store.values()) + [v for v in st.mon.values() if isinstance(v, (V, Lin, tuple))]:
            lins_of(x, live_lins)
        live_lins = set(live_lins) | {ZERO}

        if self.counting and not self.unroll:
            # what is known about numbers of characters, in terms of the positions that are kept
            for t, x in positions(list(st.store.values()) + list(st.mon.values())):
                for y in live_lins:
                    if y != x and place_in(t, y):
                        d = atom(('C', t, y)) - count_of(t, x)
                        if d not in st.facts.ge and st.facts.holds_ge(d):
                            st.facts.ge |= {d}
            plain = lambda l: all(isinstance(a, tuple) and a[0] in ('?', 'sgn') for a, _ in l.t)
            counts = [x.l for x in st.store.values() if isinstance(x, I) and plain(x.l)]
            for t in {t for t, _ in positions(list(st.store.values()) + list(st.mon.values()))}:
                for y in live_lins:
                    if place_in(t, y):
                        for v in counts:
                            d = atom(('C', t, y)) - v
                            if (d not in st.facts.ge or -d not in st.facts.ge) and st.facts.holds_ge(d) and st.facts.holds_ge(-d):
                                st.facts.ge |= {d, -d}

        def keep_atom(a):
            if a in live:
                return True
            if a[0] == 'C':
                return bool(self.unroll) or lin(a[2]) in live_lins
            if a[0] == 'lead':
                return all(keep_atom(x) for x, _ in lin(a[1]).t)
            if a[0] in ('ch', 'cw') and not self.unroll and len(a) == 3 and lin(a[2]) not in live_lins:
                return False
            if self.rigid(a):
                return True
            if a[0] in ('f', '*', 'e', 'len', 'ch', 'cw', 'sgn') and len(a) > 1:
                # attributes of a live object
                b = a[1]
                while isinstance(b, tuple):
                    if b in live:
                        return True
                    b = b[1] if len(b) > 1 and b[0] in ('f', '*', 'e', 'len', 'sgn') else None
            return False

        # what the text says somewhere inside it is not remembered across a loop: a loop walking over
        # the text would otherwise collect one such fact for every step
        st.facts.pred = {t: v for t, v in st.facts.pred.items() if self.unroll and self.monitor.keeps_text or not self.inner_text(t, live_lins) and (
            self.rigid(t) or any(keep_atom(x) for x in self.term_names(t)))}
        if self.monitor:
            self.monitor.at_head(st)
        normalize(self, st, keep_atom)

    def inner_text(self, t, live_lins):
        if t[0] == 'bnd' and not self.unroll:
            return self.rigid(t) or t[2] not in live_lins
        return t[0] == 'prefix' and lin(t[1][1]) != ZERO

    def mapframe(self, f, map_term):
        if f.dest is None:
            return f
        cell, path = f.dest
        return Frame(f.fn, f.bb, (map_term(cell) if cell[0] == 'm' else cell, map_term(path)), f.target, f.depth, f.tag)

    def term_names(self, t):
        out = set()
        walk_atoms(t, out)
        return [x for x in out if isinstance(x, tuple) and x and x[0] == '?' or x in ()] or list(out)

    def rename_cells(self, v, ren):
        if isinstance(v, P):
            if v.cell[0] == 'kst':
                return v
            return P(ren.get(v.cell, v.cell), v.path)
        if isinstance(v, SL):
            return SL(ren.get(v.cell, v.cell), v.path, v.lo, v.hi)
        if isinstance(v, A):
            return A(v.ty, v.v, [self.rename_cells(x, ren) for x in v.f])
        if isinstance(v, IT):
            return IT(v.kind, [self.rename_cells(x, ren) if isinstance(x, V) else x for x in v.f])
        if isinstance(v, VV):
            return VV(v.ty, [(self.rename_cells(t, ren), a, b) for t, a, b in v.segs], v.n)
        return v

    def coalesce(self, st, v):
        if isinstance(v, A):
            f = [self.coalesce(st, x) for x in v.f]
            if any(a is not b for a, b in zip(f, v.f)):
                return A(v.ty, v.v, f)
            return v
        if not isinstance(v, VV):
            return v
        segs = [s for s in v.segs if not st.holds_eq(s[1], s[2])]
        i = 0
        while i + 1 < len(segs):
            a, b = segs[i], segs[i + 1]
            j = self.merge_segs(st, a, b)
            if j is not None:
                segs[i:i + 2] = [j]
            else:
                i += 1
        if tuple(segs) == v.segs:
            return v
        return VV(v.ty, segs, v.n)

    def merge_segs(self, st, a, b):
        ta, la, ha = a
        tb, lb, hb = b
        if ha != lb:
            return None
        one_a, one_b = (ha - la).const == 1, (hb - lb).const == 1
        ia = subst_val(ta, {IDX: la}) if one_a else ta
        if one_b:
            ib = subst_val(tb, {IDX: lb})
            if not one_a:
                if subst_val(ta, {IDX: lb}) == ib:
                    return (ta, la, hb)
                g = self.any_like(ta, ib)
                return (g, la, hb) if g is not None else None
            g = self.generalise(ia, ib, la)
            if g is None and not self.keep_items:
                g = self.any_like(ia, ib)
            return (g, la, hb) if g is not None else None
        if ta == tb:
            return (ta, la, hb)
        return None

    def any_like(self, a, b):
        """A template that stands for any element of this type."""
        ty = getattr(a, 'ty', None)
        if isinstance(a, S) and a.t and a.t[0] == '?' and a.t[1] == 'any':
            return a if a.ty == getattr(b, 'ty', None) else None
        if ty is None or ty != getattr(b, 'ty', None):
            if type(a) is type(b) and isinstance(a, P):
                return None
            return None
        return S(('any', self.fresh('any'), atom(IDX)), ty)

    def generalise(self, a, b, p):
        """Template t with t[p] = a and t[p+1] = b, if one is evident."""
        try:
            return self._gen(a, b, p)
        except GiveUp:
            return None

    def _gen(self, a, b, p):
        if isinstance(a, Lin):
            d = b - a
            if d.const is None:
                raise GiveUp('x')
            return a + (atom(IDX) - p).scale(d.const)
        if type(a) is not type(b):
            raise GiveUp('x')
        if isinstance(a, V):
            if isinstance(a, I):
                return I(self._gen(a.l, b.l, p))
            if isinstance(a, A):
                if a.v != b.v or len(a.f) != len(b.f):
                    raise GiveUp('x')
                return A(a.ty, a.v, [self._gen(x, y, p) for x, y in zip(a.f, b.f)])
            if isinstance(a, S):
                return S(self._gen(a.t, b.t, p), a.ty)
            if isinstance(a, P):
                return P(self._gen(a.cell, b.cell, p), self._gen(a.path, b.path, p))
            if isinstance(a, STR):
                return STR(self._gen(a.t, b.t, p), self._gen(a.lo, b.lo, p), self._gen(a.hi, b.hi, p))
            if a == b:
                return a
            raise GiveUp('x')
        if isinstance(a, tuple):
            if a == b:
                return a
            if len(a) != len(b) or (a and a[0] in ('?', 'H')):
                raise GiveUp('x')
            return tuple(self._gen(x, y, p) for x, y in zip(a, b))
        if a == b:
            return a
        raise GiveUp('x')

    def leaves(self, x, sh, lv):
        """Splits a value into shape tokens (sh) and numeric/term leaves (lv)."""
        if isinstance(x, I):
            sh.append('I')
            lv.append(x.l)
        elif isinstance(x, B):
            if x.c is True or x.c is False:
                sh.append(('B', x.c))
            else:
                sh.append(('B', x.c[0]))
                lv.append(x.c[1])
        elif isinstance(x, A):
            sh.append(('A', x.ty, x.v, len(x.f)))
            for y in x.f:
                self.leaves(y, sh, lv)
        elif isinstance(x, S):
            sh.append(('S', x.ty))
            lv.append(x.t)
        elif isinstance(x, P):
            self.leaf_cell(x.cell, sh, lv)
            self.leaf_path(x.path, sh, lv)
        elif isinstance(x, SL):
            sh.append('SL')
            self.leaf_cell(x.cell, sh, lv)
            self.leaf_path(x.path, sh, lv)
            lv.append(x.lo)
            lv.append(x.hi)
        elif isinstance(x, STR):
            sh.append('STR')
            lv.append(x.t)
            lv.append(x.lo)
            lv.append(x.hi)
        elif isinstance(x, VV):
            # a single element is not taken for an instance of a pattern
            sh.append(('VV', x.ty, len(x.segs), tuple((b - a).const == 1 for _, a, b in x.segs)))
            for t, a, b in x.segs:
                self.leaves(t, sh, lv)
                lv.append(a)
                lv.append(b)
            lv.append(x.n)
        elif isinstance(x, VO):
            sh.append(('VO', x.ty, x.tag))
            lv.append(x.n)
        elif isinstance(x, IT):
            sh.append(('IT', x.kind, len(x.f)))
            for y in x.f:
                if isinstance(y, V):
                    self.leaves(y, sh, lv)
                elif isinstance(y, (Lin, tuple)):
                    sh.append('t')
                    lv.append(y)
                else:
                    sh.append(y)
        elif isinstance(x, (Lin,)):
            sh.append('lin')
            lv.append(x)
        else:
            sh.append(x)

    def leaf_cell(self, c, sh, lv):
        if c[0] == 'm':
            sh.append(('m', c[2]))
            lv.append(c[1])
        else:
            sh.append(c)

    def leaf_path(self, p, sh, lv):
        for e in p:
            if e[0] == 'i':
                sh.append(('i',) + tuple(e[2:]))
                lv.append(e[1])
            else:
                sh.append(e)

    def rebuild(self, x, it):
        """Inverse of leaves: x with its leaves replaced by those from the iterator."""
        if isinstance(x, I):
            return I(next(it))
        if isinstance(x, B):
            if x.c is True or x.c is False:
                return x
            return B((x.c[0], next(it)))
        if isinstance(x, A):
            return A(x.ty, x.v, [self.rebuild(y, it) for y in x.f])
        if isinstance(x, S):
            return S(next(it), x.ty)
        if isinstance(x, P):
            c = self.rb_cell(x.cell, it)
            return P(c, self.rb_path(x.path, it))
        if isinstance(x, SL):
            c = self.rb_cell(x.cell, it)
            p = self.rb_path(x.path, it)
            lo = next(it)
            return SL(c, p, lo, next(it))
        if isinstance(x, STR):
            t = next(it)
            lo = next(it)
            return STR(t, lo, next(it))
        if isinstance(x, VV):
            segs = []
            for t, a, b in x.segs:
                t2 = self.rebuild(t, it)
                a2 = next(it)
                segs.append((t2, a2, next(it)))
            return VV(x.ty, segs, next(it))
        if isinstance(x, VO):
            return VO(x.ty, x.tag, next(it))
        if isinstance(x, IT):
            f = []
            for y in x.f:
                if isinstance(y, V):
                    f.append(self.rebuild(y, it))
                elif isinstance(y, (Lin, tuple)):
                    f.append(next(it))
                else:
                    f.append(y)
            return IT(x.kind, f)
        if isinstance(x, Lin):
            return next(it)
        return x

    def rb_cell(self, c, it):
        if c[0] == 'm':
            return ('m', next(it), c[2])
        return c

    def rb_path(self, p, it):
        return tuple((e[0], next(it)) + tuple(e[2:]) if e[0] == 'i' else e for e in p)

    def flat(self, st):
        sh, lv = [], []
        for c in sorted(st.store, key=repr):
            if c[0] == 'm':
                sh.append(('cell', 'm', c[2]))
                lv.append(c[1])
            else:
                sh.append(('cell', c))
            self.leaves(st.store[c], sh, lv)
        for k in sorted(st.mon, key=repr):
            sh.append(('mon', k))
            self.leaves(st.mon[k], sh, lv)
        rv = tuple(sorted(((t, v) for t, v in st.facts.var.items() if self.rigid(t)), key=repr))
        rp = tuple(sorted(((t, v) for t, v in st.facts.pred.items() if self.rigid(t)), key=repr))
        shape = (self.context(st), tuple(sh), rv, rp, st.weak is not None,
                 tuple(f.dest for f in st.frames))
        return shape, lv

    def at_head(self, st):
        self.cur = None
        if self.track_ends and (self.straight or self.unroll):
            endmon.stuck(self, st)
        elif self.track_ends:
            endmon.arrive(self, st)
        if self.straight:
            # every loop here is bounded by the shape of its input: no joins
            ctx = self.context(st)
            st.snap = dict(st.snap)
            n = st.snap[ctx] = st.snap.get(ctx, 0) + 1
            if n > 300:
                self.incomplete = 'loop in ' + self.p.fns[ctx[-1][0]]['name']
                return None
            return st
        if self.counting:
            self.monitor.before_head(st)
        self.canon(st)
        shape, lv = self.flat(st)
        ctx = self.context(st)
        # lists held by the callers of this loop do not change while it runs: states that differ there
        # are kept apart
        shape = shape + (self.outer(st),)
        node = self.nodes.get(shape)
        prev = st.snap.get(ctx)
        if node is None:
            node = self.nodes[shape] = {'id': len(self.nodes), 'ws': [], 'visits': 0, 'wide': 0, 'ctx': ctx}
        if self.unroll:
            return self.unrolled(st, node, ctx, prev)
        if prev is not None:
            self.edge(st, prev, node, shape, lv)
        for w in node['ws']:
            if self.subsumes(w, st, lv):
                return None
        node['visits'] += 1
        if len(node['ws']) < self.delay:
            node['ws'].append(st.copy())
            out = st
        else:
            self.widenings += 1
            node['wide'] += 1
            if node['wide'] > 30:
                self.incomplete = 'widening does not settle in ' + self.p.fns[ctx[-1][0]]['name']
                raise GiveUp('widening')
            w = self.widen(node['ws'][-1], st, lv, hard=node['wide'] > 12, far=node['wide'] > 5)
            node['ws'][-1:] = [w]
            if node['wide'] == 1:
                # keep the exact states explored before, and the widened one
                pass
            w.weak = w.weak or 'joining different paths'
            out = w.copy()
            out.trail = st.trail
            out.seq = max(w.seq, st.seq)
            out.snap = dict(st.snap)
        shape2, lv2 = self.flat(out)
        out.snap = dict(out.snap)
        out.snap[ctx] = (node['id'], shape2, tuple(lv2))
        # loops nested inside start over
        for h in [h for h in out.snap if len(h) >= len(ctx) and h != ctx and h[:len(ctx) - 1] == ctx[:-1]
                  and len(h) > len(ctx)]:
            del out.snap[h]
        if self.track_ends:
            endmon.leave(self, out)
        return out

    def unrolled(self, st, node, ctx, prev):
        n = prev[1] if prev else 0
        if n >= self.unroll:
            return None
        for w, k in node['ws']:
            if k <= n and self.subsumes(w, st, self.flat(st)[1]):
                return None
        node['ws'].append((st.copy(), n))
        st.snap = dict(st.snap)
        st.snap[ctx] = (node['id'], n + 1)
        for h in [h for h in st.snap if len(h) > len(ctx) and h[:len(ctx) - 1] == ctx[:-1]]:
            del st.snap[h]
        return st

    def outer(self, st):
        top = st.frames[-1].depth
        lv = []
        for c in sorted(st.store, key=repr):
            if c[0] == 'L' and c[1] < top and isinstance(st.store[c], VV):
                self.leaves(st.store[c], [], lv)
        return tuple(self.rigid_part(x) for x in lv)

    def rigid_part(self, x):
        if isinstance(x, Lin):
            if all(self.rigid(a) for a, _ in x.t):
                return x
            return '?'
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == '?':
                return '?'
            return tuple(self.rigid_part(y) for y in x)
        return x

    def edge(self, st, prev, node, shape, lv):
        pid, pshape, plv = prev
        key = (pid, node['id'])
        inc = set()
        if pshape[1] == shape[1] or True:
            a = self.measures(pshape, plv)
            b = self.measures(shape, lv)
            for m in a:
                if m in b and isinstance(a[m], Lin) and isinstance(b[m], Lin):
                    d = b[m] - a[m]
                    if d.const == 0:
                        continue
                    if st.facts.holds_ge(d - 1):
                        inc.add((m, '+'))
                    elif st.facts.holds_ge(-d - 1):
                        inc.add((m, '-'))
                    elif st.facts.holds_ge(d):
                        inc.add((m, '0+'))
                    elif st.facts.holds_ge(-d):
                        inc.add((m, '0-'))
                    else:
                        inc.add((m, '?'))
        e = self.edges.setdefault(key, [])
        fr = frozenset(inc)
        if fr not in e:
            e.append(fr)

    def measures(self, shape, lv):
        """Numeric leaves by position within their cell."""
        out = {}
        i = 0
        cell, n = None, 0
        for s in shape[1]:
            if isinstance(s, tuple) and s and s[0] in ('cell', 'mon'):
                cell, n = s, 0
                if s[0] == 'cell' and s[1] == 'm':
                    i += 1
                continue
            k = self.leaf_count(s)
            for _ in range(k):
                if i < len(lv):
                    out[(cell, n)] = lv[i]
                n += 1
                i += 1
        return out

    @staticmethod
    def leaf_count(s):
        if s in ('I', 't', 'lin'):
            return 1
        if s == 'SL':
            return 2
        if s == 'STR':
            return 3
        if isinstance(s, tuple) and s:
            if s[0] == 'B':
                return 0 if s[1] in (True, False) else 1
            if s[0] in ('S', 'VO', 'i'):
                return 1
            if s[0] == 'm':
                return 1
            if s[0] == 'VV':
                return 2 * s[2] + 1
        return 0

    # --- subsumption and widening -------------------------------------------------------------------
    def unify(self, w, s, lins, binds):
        """Collects what it takes for leaf w (pattern) to stand for leaf s."""
        if isinstance(w, Lin) and isinstance(s, Lin):
            if w != s or any(not self.rigid(a) for a, _ in w.t):
                lins.append((w, s))
            return True
        if isinstance(w, tuple) and isinstance(s, tuple):
            if w == s and self.rigid(w):
                return True
            if len(w) == 3 and w[0] == '?':
                if w in binds:
                    return binds[w] == s
                binds[w] = s
                return True
            if len(w) != len(s):
                return False
            return all(self.unify(a, b, lins, binds) for a, b in zip(w, s))
        if isinstance(w, V) and isinstance(s, V):
            if w == s and self.rigid(w):
                return True
            sa, la, sb, lb = [], [], [], []
            self.leaves(w, sa, la)
            self.leaves(s, sb, lb)
            return sa == sb and all(self.unify(a, b, lins, binds) for a, b in zip(la, lb))
        return w == s

    def solve(self, lins, wfix):
        """Gaussian elimination for the non-rigid atoms of the pattern side.
        Returns (assignment, list of residual rows)."""
        assign = {}
        resid = []
        rows = []
        for idx, (w, s) in enumerate(lins):
            coef = {}
            const = lin(w.c)
            for a, k in w.t:
                if a in wfix:
                    const = const + wfix[a].scale(k)
                elif self.rigid(a):
                    const = const + Lin(((a, k),), 0)
                else:
                    coef[a] = Fraction(k)
            rhs = s - const
            rows.append((idx, coef, {x: Fraction(k) for x, k in rhs.t}, Fraction(rhs.c)))
        if self.counting:
            # what most rows say about a name goes first
            votes = {}
            for idx, coef, rt, rc in rows:
                if len(coef) == 1:
                    (a, k), = coef.items()
                    v = a, frozenset((x, j / k) for x, j in rt.items()), rc / k
                    votes.setdefault(v, []).append(idx)
            rank = {i: -len(ids) for ids in votes.values() for i in ids}
            rows.sort(key=lambda r: rank.get(r[0], 0))
        piv = []
        for idx, coef, rt, rc in rows:
            coef, rt = dict(coef), dict(rt)
            for a, pc, prt, prc in piv:
                if a in coef:
                    k = coef.pop(a)
                    for b, kk in pc.items():
                        if b != a:
                            coef[b] = coef.get(b, 0) - k * kk
                            if coef[b] == 0:
                                del coef[b]
                    for b, kk in prt.items():
                        rt[b] = rt.get(b, 0) - k * kk
                        if rt[b] == 0:
                            del rt[b]
                    rc = rc - k * prc
            if not coef:
                if rt or rc != 0:
                    resid.append((idx, rt, rc))
                continue
            a = next(iter(coef))
            k = coef[a]
            pc = {b: v / k for b, v in coef.items()}
            prt = {b: v / k for b, v in rt.items()}
            piv.append((a, pc, prt, rc / k))
        # back substitution; unconstrained atoms keep their own name
        free = {}
        for a, pc, prt, prc in reversed(piv):
            t = dict(prt)
            c = prc
            for b, k in pc.items():
                if b == a:
                    continue
                val = assign.get(b)
                if val is None:
                    val = ({b: Fraction(1)}, Fraction(0))
                    free[b] = True
                    assign[b] = val
                for x, kk in val[0].items():
                    t[x] = t.get(x, 0) - k * kk
                    if t[x] == 0:
                        del t[x]
                c = c - k * val[1]
            assign[a] = (t, c)
        out = {}
        for a, (t, c) in assign.items():
            if any(k.denominator != 1 for k in t.values()) or c.denominator != 1:
                return None, resid
            l = lin(int(c))
            for x, k in t.items():
                l = l + Lin(((x, int(k)),), 0)
            out[a] = l
        return out, resid

    def subst_map(self, sol, binds):
        m = dict(binds)
        m.update(sol)
        return m

    def facts_hold(self, w, st, m):
        for l in w.facts.ge:
            if not st.facts.holds_ge(subst_lin(l, m)):
                return False
        for l in w.facts.ne:
            if st.facts.decide(('ne', subst_lin(l, m))) is not True:
                return False
        for t, v in w.facts.var.items():
            if st.facts.var.get(subst_term(t, m)) != v:
                return False
        for t, v in w.facts.pred.items():
            if st.facts.decide(('p', subst_term(t, m))) is not v:
                return False
        for a, l in m.items():
            if isinstance(l, Lin) and not signed_atom(a) and not st.facts.holds_ge(l):
                return False
        return True

    def count_cands(self, w, o, uniq, new, consts, moves, shmap):
        """Numbers of characters before the positions of texts that correspond to numbers kept."""
        out = set()
        where = {}
        for v in spans(list(o.store.values()) + list(o.mon.values())):
            if isinstance(v, STR) and v.t[0] != 'lit':
                where.setdefault(v.t, set()).add(v.lo)
        if len(uniq) > 40:
            return out
        for t, xs in where.items():
            for x in xs:
                if not any(a in new or isinstance(a, tuple) and a[0] == '?' for a, _ in x.t):
                    continue
                n = atom(('C', t, x))
                for y in uniq:
                    if place_in(t, y):
                        out.add(atom(('C', t, y)) - n)
                    if any(a in new or isinstance(a, tuple) and a[0] == '?' for a, _ in y.t):
                        out |= {n - y, y - n}
                        for z in uniq + list(consts):
                            out |= {n + y - z, z - n - y}
        # and what the numbers of characters add up to with the numbers that change
        texts = lambda s: [v for v in spans(list(s.store.values()) + list(s.mon.values())) if isinstance(v, STR) and v.t[0] != 'lit']
        for a, b in zip(texts(w), texts(o)):
            if a.t != b.t or not b.lo.t:
                continue
            n = atom(('C', a.t, b.lo))
            had = [ZERO] if a.lo.const == 0 else []
            for g in w.facts.ge:
                k = next((k for x, k in g.t if x == ('C', a.t, a.lo)), 0)
                if abs(k) == 1 and -g in w.facts.ge:
                    had.append(atom(('C', a.t, a.lo)) - g.scale(k))
            for h in had[:3]:
                h = subst_lin(h, shmap)
                for y, z in moves:
                    if y != z:
                        out |= {n + z - h - y, h + y - n - z}
        return out

    def wleaves(self, w):
        return self.flat(w)[1]

    def subsumes(self, w, st, lv):
        lins, binds = [], {}
        for a, b in zip(self.wleaves(w), lv):
            if not self.unify(a, b, lins, binds):
                return False
        wfix = {}
        for a, b in binds.items():
            if isinstance(b, tuple):
                wfix[a] = atom(b)
        for x, _ in lins:
            for a, _ in x.t:
                if a not in wfix and not self.rigid(a) and not is_name(a) and not (a[0] == 'sgn' and is_name(a[1])):
                    wfix[a] = atom(subst_term(a, binds))
        sol, resid = self.solve(lins, wfix)
        if sol is None or resid:
            return False
        return self.facts_hold(w, st, self.subst_map(sol, binds))

    def join_term(self, a, b, phis):
        """Least general pattern of two terms, with fresh names where they differ."""
        if a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple):
            if (a, b) in phis:
                return phis[(a, b)]
            if len(a) == len(b) and len(a) > 1 and a[0] == b[0] and a[0] not in ('?', 'lit', 'arg'):
                r = tuple(self.join_term(x, y, phis) for x, y in zip(a, b))
                if all(x is not None for x in r):
                    return r
            n = self.fresh('phi')
            phis[(a, b)] = n
            return n
        if isinstance(a, Lin) and isinstance(b, Lin):
            k = ('lin', a, b)
            if k not in phis:
                phis[k] = None
            return ('#lin', a, b)
        if isinstance(a, V) and isinstance(b, V):
            sa, la, sb, lb = [], [], [], []
            self.leaves(a, sa, la)
            self.leaves(b, sb, lb)
            if sa == sb:
                j = [self.join_term(x, y, phis) for x, y in zip(la, lb)]
                if all(x is not None for x in j):
                    return self.rebuild(a, iter(j))
            return None
        return None

    def widen(self, w, st, lv, hard=False, far=False):
        wl = self.wleaves(w)
        phis = {}
        joined = []
        pairs = []

        def lin_pairs(t):
            if isinstance(t, tuple):
                if len(t) == 3 and t[0] == '#lin':
                    pairs.append((t[1], t[2]))
                else:
                    for x in t:
                        lin_pairs(x)

        for a, b in zip(wl, lv):
            if isinstance(a, Lin) and isinstance(b, Lin):
                j = ('#lin', a, b)
            elif a == b:
                j = a
            else:
                j = self.join_term(a, b, phis)
                if j is None:
                    j = self.fresh('phi')
                    phis[(a, b)] = j
            joined.append(j)
            lin_pairs(j)
        # pattern names of w inside terms now bound by phis: treat as replaced
        binds = {}
        sol, resid = self.solve(pairs, {})
        if sol is None:
            sol = {}
            resid = []
            for idx, (a, b) in enumerate(pairs):
                d = b - a
                if d.t or d.c:
                    resid.append((idx, {x: Fraction(k) for x, k in d.t}, Fraction(d.c)))
        # atoms that also occur inside terms must keep their meaning
        termatoms = set()
        for a, b in zip(wl, lv):
            if not isinstance(a, Lin):
                walk_atoms(a, termatoms)
        bad = [a for a in sol if a in termatoms and sol[a] != atom(a)]
        if bad:
            for a in bad:
                del sol[a]
            resid = []
            for idx, (x, y) in enumerate(pairs):
                d = y - subst_lin(x, sol)
                if d.t or d.c:
                    resid.append((idx, {z: Fraction(k) for z, k in d.t}, Fraction(d.c)))
        # names whose value in the new state may lie below the bound they carry
        shift = {}
        for a in sorted(sol, key=repr):
            if signed_atom(a) or st.facts.holds_ge(sol[a]):
                continue
            lb = None if far else next((c for c in range(1, 12) if st.facts.holds_ge(sol[a] + c)), None)
            n = self.fresh('delta')
            if lb is None:
                shift[a] = (('sgn', n), 0)
            else:
                shift[a] = (n, lb)
        shmap = {a: atom(n) - lb for a, (n, lb) in shift.items()}
        delta = {}
        extra = {}
        for idx, rt, rc in resid:
            # recompute the residual of this row under sol
            a, b = pairs[idx]
            d = b - subst_lin(a, sol)
            add = ZERO
            for x, k in d.t:
                if x not in delta:
                    n = self.fresh('delta')
                    delta[x] = ('sgn', n) if signed_atom(x) else n
                add = add + atom(delta[x]).scale(k)
            if d.c:
                if 1 not in delta:
                    delta[1] = self.fresh('delta')
                add = add + atom(delta[1]).scale(d.c)
            extra[idx] = add
        pos = [0]
        cache = {}

        def fix(t):
            if isinstance(t, tuple):
                if len(t) == 3 and t[0] == '#lin':
                    i = pos[0]
                    pos[0] += 1
                    return subst_lin(t[1], shmap) + extra.get(i, ZERO)
                return tuple(fix(x) for x in t)
            return t

        out_leaves = [fix(j) for j in joined]
        o = w.copy()
        it = iter(out_leaves)
        store = {}
        for c in sorted(w.store, key=repr):
            c2 = c
            if c[0] == 'm':
                c2 = ('m', next(it), c[2])
            store[c2] = self.rebuild(w.store[c], it)
        o.store = store
        mon = {}
        for k in sorted(w.mon, key=repr):
            mon[k] = self.rebuild(w.mon[k], it)
        o.mon = mon
        # facts: what holds in w (new names at zero) and in st (new names at their values)
        to_w = {v: ZERO for v in delta.values()}
        to_s = dict(sol)
        for a, (n, lb) in shift.items():
            to_w[n] = atom(a) + lb
            to_s[n] = sol[a] + lb
        for x, v in delta.items():
            to_s[v] = lin(1) if x == 1 else atom(x)
        for k, n in phis.items():
            if n is not None and isinstance(k, tuple) and len(k) == 2:
                to_w[n] = k[0]
                to_s[n] = k[1]
        facts = Facts()
        cands = set()
        if not hard:
            cands |= {subst_lin(g, shmap) for g in w.facts.ge}
            # generalise the new state's facts over the new names
            inv = {x: atom(v) for x, v in delta.items() if x != 1}
            for g in st.facts.ge:
                if inv and any(a in inv for a, _ in g.t):
                    cands.add(subst_lin(g, inv))
                if 1 in delta and g.c:
                    d1 = atom(delta[1])
                    h = subst_lin(g, inv) if inv else g
                    if abs(h.c) == 1:
                        cands.add(Lin(h.t, 0) + d1.scale(h.c))
                    cands.add(h + d1.scale(-1) + 1)
            for g in w.facts.ge:
                if 1 in delta:
                    cands.add(g - atom(delta[1]))
            new = set(delta.values()) | {n for n, _ in shift.values()}
        else:
            cands |= {subst_lin(g, shmap) for g in w.facts.ge}
        # leaf bounds: pairs of leaves that stay ordered
        new = set(delta.values()) | {n for n, _ in shift.values()}
        uniq = []
        for x in out_leaves:
            if isinstance(x, Lin) and x.t and x not in uniq:
                uniq.append(x)
        if len(uniq) <= 40:
            for x in uniq:
                for y in uniq:
                    d = y - x
                    if d.t and (not hard and any(a in new for a, _ in x.t) or len(d.t) <= 2 and (
                            not any(a in new for a, _ in d.t) or subst_lin(d, to_w).const is not None)):
                        cands.add(d)
                        cands.add(-d)
        # the two ends of a view stay ordered
        for v in spans(list(o.store.values()) + list(o.mon.values())):
            cands |= {v.hi - v.lo, v.lo, v.lo - 1}
        if self.counting:
            cands |= set(uniq)
            moves = {(subst_lin(x, shmap), subst_lin(x, shmap) + extra.get(i, ZERO)) for i, (x, y) in enumerate(pairs)}
            cands |= self.count_cands(w, o, uniq, new, {x for x in out_leaves if isinstance(x, Lin) and not x.t}, moves, shmap)
        # a bound that got weaker may still hold with one of a few standard constants
        cands |= {Lin(g.t, c) for g in list(cands) for c in (-1, 0) if g.c < c}
        good = []
        for g in cands:
            if not g.t:
                continue
            if all(k > 0 and not signed_atom(a) for a, k in g.t) and g.c >= 0:
                continue
            if w.facts.holds_ge(subst_lin(g, to_w)) and st.facts.holds_ge(subst_lin(g, to_s)):
                good.append(g)
        # drop what the rest already implies
        good.sort(key=lambda g: (len(g.t), repr(g)))
        kept = frozenset()
        for g in good:
            if not Facts(kept).holds_ge(g):
                kept = kept | {g}
        facts.ge = kept
        ne = set()
        for g in w.facts.ne:
            if st.facts.decide(('ne', subst_lin(g, to_s))) is True:
                ne.add(g)
        facts.ne = frozenset(ne)
        inv_w = {}
        for k, n in phis.items():
            if n is not None and isinstance(k, tuple) and len(k) == 2:
                inv_w.setdefault(k[0], n)
        # numbers of w under their names in the joined state
        moved = {}
        for i, (x, y) in enumerate(pairs):
            if x.t:
                moved.setdefault((x.t, x.c), subst_lin(x, shmap) + extra.get(i, ZERO))

        def renamed(t):
            if isinstance(t, Lin):
                if not t.t or (t.t, t.c) in moved:
                    return moved.get((t.t, t.c), t)
                near = [(abs(c - t.c), c) for tt, c in moved if tt == t.t]
                return moved[t.t, min(near)[1]] + (t.c - min(near)[1]) if near else subst_lin(t, shmap)
            return tuple(renamed(x) for x in t) if isinstance(t, tuple) else t

        def names(t):
            out = []
            for t2 in (t, subst_term(t, inv_w), renamed(t)):
                if t2 not in out:
                    out.append(t2)
            return out

        for t, v in w.facts.var.items():
            for t2 in names(t):
                if st.facts.var.get(subst_term(t2, to_s)) == v and w.facts.var.get(subst_term(t2, to_w)) == v:
                    facts.var[t2] = v
        for t, v in w.facts.pred.items():
            for t2 in names(t):
                if st.facts.decide(('p', subst_term(t2, to_s))) is v and w.facts.decide(('p', subst_term(t2, to_w))) is v:
                    facts.pred[t2] = v
        o.facts = facts
        if hard:
            facts.var = {t: v for t, v in facts.var.items() if self.rigid(t)}
            facts.pred = {t: v for t, v in facts.pred.items() if self.rigid(t)}
        self.canon(o)
        return o

import endmon
