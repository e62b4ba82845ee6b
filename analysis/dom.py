"""Abstract domain: linear terms over named atoms, facts about them, and abstract values."""
from fractions import Fraction
from math import gcd


class Lin:
    """sum(coef * atom) + c, immutable."""
    __slots__ = ('t', 'c', '_h')

    def __init__(self, t=(), c=0):
        self.t = t          # tuple of (atom, coef), sorted by repr key
        self.c = c
        self._h = hash((t, c))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c + o)
        if not o.t:
            return Lin(self.t, self.c + o.c)
        if not self.t:
            return Lin(o.t, self.c + o.c)
        d = dict(self.t)
        for a, k in o.t:
            n = d.get(a, 0) + k
            if n:
                d[a] = n
            else:
                d.pop(a, None)
        return Lin(_norm(d), self.c + o.c)

    def __neg__(self):
        return Lin(tuple((a, -k) for a, k in self.t), -self.c)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c - o)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Lin((), 0)
        return Lin(tuple((a, c * k) for a, c in self.t), self.c * k)

    @property
    def const(self):
        return self.c if not self.t else None

    def atoms(self):
        return [a for a, _ in self.t]

    def __repr__(self):
        s = ' + '.join(('%s' % show(a)) if k == 1 else '%d*%s' % (k, show(a)) for a, k in self.t)
        if not s:
            return str(self.c)
        return s + (' %+d' % self.c if self.c else '')


_order = {}


def _key(a):
    k = _order.get(a)
    if k is None:
        k = _order[a] = len(_order)
    return k


def _norm(d):
    return tuple(sorted(d.items(), key=lambda x: _key(x[0])))


def lin(x):
    return x if isinstance(x, Lin) else Lin((), x)


def atom(a):
    _key(a)
    return Lin(((a, 1),), 0)


ZERO = Lin((), 0)


def show(t):
    """Human-readable form of a term."""
    if isinstance(t, Lin):
        return repr(t)
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    h = t[0]
    if h == 'f' and len(t) == 4:
        return '%s.%s%s' % (show(t[1]), ('%s.' % t[2]) if t[2] else '', t[3])
    if h == '*' and len(t) == 2:
        return show(t[1])
    if h == 'e' and len(t) == 3:
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if h == 'arg':
        return t[1]
    if h == 'lit':
        return repr(t[1])
    return '%s(%s)' % (h, ', '.join(show(x) for x in t[1:]))


# --- values ------------------------------------------------------------------------------------
class V:
    __slots__ = ('_h',)

    def key(self):
        raise NotImplementedError

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash((type(self).__name__,) + self.key())
            return self._h

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and hash(self) == hash(o) and self.key() == o.key())

    def __ne__(self, o):
        return not self == o


class I(V):
    """Integer or char."""
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = lin(l)

    def key(self):
        return (self.l,)

    def __repr__(self):
        return repr(self.l)


class B(V):
    """Boolean: True, False, or a condition."""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def key(self):
        return (self.c,)

    def __repr__(self):
        return show(self.c)


class A(V):
    """Struct, tuple, array, closure or enum variant with known shape."""
    __slots__ = ('ty', 'v', 'f')

    def __init__(self, ty, v, f):
        self.ty, self.v, self.f = ty, v, tuple(f)

    def key(self):
        return (self.ty, self.v, self.f)

    def __repr__(self):
        return 'A%s#%s(%s)' % (self.ty, self.v, ', '.join(map(repr, self.f)))


class S(V):
    """Opaque value of a type, named by a term."""
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty):
        self.t, self.ty = t, ty

    def key(self):
        return (self.t, self.ty)

    def __repr__(self):
        return '<%s>' % show(self.t)


class P(V):
    """Pointer to a place: a cell and a projection path. Also Box and Arc."""
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def key(self):
        return (self.cell, self.path)

    def __repr__(self):
        return '&%s%s' % (show(self.cell), ''.join('.%s' % (show(e[1]),) for e in self.path))


class SL(V):
    """Slice reference: elements [lo, hi) of the sequence at a place."""
    __slots__ = ('cell', 'path', 'lo', 'hi')

    def __init__(self, cell, path, lo, hi):
        self.cell, self.path, self.lo, self.hi = cell, tuple(path), lin(lo), lin(hi)

    def key(self):
        return (self.cell, self.path, self.lo, self.hi)

    def __repr__(self):
        return '&%s%s[%r..%r]' % (show(self.cell), ''.join('.%s' % (show(e[1]),) for e in self.path), self.lo, self.hi)


class STR(V):
    """&str: bytes [lo, hi) of a text named by a term."""
    __slots__ = ('t', 'lo', 'hi')

    def __init__(self, t, lo, hi):
        self.t, self.lo, self.hi = t, lin(lo), lin(hi)

    def key(self):
        return (self.t, self.lo, self.hi)

    def __repr__(self):
        if self.t[0] == 'lit':
            return repr(self.t[1])
        return '%s[%r..%r]' % (show(self.t), self.lo, self.hi)


class VV(V):
    """Vector with tracked contents: segments (template over IDX, lo, hi) and a length."""
    __slots__ = ('ty', 'segs', 'n')

    def __init__(self, ty, segs, n):
        self.ty, self.segs, self.n = ty, tuple(segs), lin(n)

    def key(self):
        return (self.ty, self.segs, self.n)

    def __repr__(self):
        return 'vec[%s; %r]' % (', '.join('%r@%r..%r' % s for s in self.segs), self.n)


class VO(V):
    """Vector whose contents only the monitors follow; only its length is a value."""
    __slots__ = ('ty', 'tag', 'n')

    def __init__(self, ty, tag, n):
        self.ty, self.tag, self.n = ty, tag, lin(n)

    def key(self):
        return (self.ty, self.tag, self.n)

    def __repr__(self):
        return 'vec<%s; %r>' % (self.tag, self.n)


class IT(V):
    """Iterator or other library object with known fields."""
    __slots__ = ('kind', 'f')

    def __init__(self, kind, f):
        self.kind, self.f = kind, tuple(f)

    def key(self):
        return (self.kind, self.f)

    def __repr__(self):
        return '%s(%s)' % (self.kind, ', '.join(map(repr, self.f)))


class FL(V):
    """Constant float, by bits; opaque floats are S."""
    __slots__ = ('bits',)

    def __init__(self, bits):
        self.bits = bits

    def key(self):
        return (self.bits,)

    def __repr__(self):
        return 'f64#%x' % self.bits


class F(V):
    """Function item or function pointer."""
    __slots__ = ('ty', 'fn')

    def __init__(self, ty, fn):
        self.ty, self.fn = ty, fn

    def key(self):
        return (self.ty, self.fn)

    def __repr__(self):
        return 'fn%s' % self.fn


UNIT = A(None, 0, ())
IDX = ('#i',)


# --- conditions --------------------------------------------------------------------------------
# ('ge', Lin)  Lin >= 0        ('eq', Lin)  Lin == 0       ('ne', Lin)
# ('p', term)  opaque predicate            ('np', term)  its negation
def c_not(c):
    if c is True or c is False:
        return not c
    k = c[0]
    if k == 'ge':
        return ('ge', -c[1] - 1)
    if k == 'eq':
        return ('ne', c[1])
    if k == 'ne':
        return ('eq', c[1])
    if k == 'p':
        return ('np', c[1])
    if k == 'np':
        return ('p', c[1])
    raise ValueError(c)


def c_norm(c):
    if c is True or c is False:
        return c
    if c[0] in ('ge', 'eq', 'ne') and not c[1].t:
        x = c[1].c
        return x >= 0 if c[0] == 'ge' else (x == 0 if c[0] == 'eq' else x != 0)
    if c[0] in ('eq', 'ne') and c[1].t and c[1].t[0][1] < 0:
        return (c[0], -c[1])
    return c


# --- facts -------------------------------------------------------------------------------------
def signed_atom(a):
    return isinstance(a, tuple) and a and a[0] == 'sgn'


_MODELS = {}
_MEMO = {}


def _eval(model, l):
    v = l.c
    for a, k in l.t:
        v = v + k * model.get(a, 0)
    return v


def entails(rel, l):
    """Does l >= 0 follow from the rows (each >= 0) over the rationals, with l an integer?"""
    key = (rel, l)
    r = _MEMO.get(key)
    if r is not None:
        return r
    q = -l - 1
    ms = _MODELS.get(rel)
    if ms:
        for m in ms:
            if _eval(m, q) >= 0:
                _MEMO[key] = False
                return False
    m = _solve(rel, q)
    if isinstance(m, dict):
        if ms is None:
            if len(_MODELS) > 20000:
                _MODELS.clear()
            ms = _MODELS[rel] = []
        if len(ms) < 12:
            ms.append(m)
    r = m is True
    if len(_MEMO) > 400000:
        _MEMO.clear()
    _MEMO[key] = r
    return r


def _solve(rel, q):
    """Fourier-Motzkin elimination. True: infeasible. dict: a point that satisfies all rows.
    None: gave up (treated as feasible)."""
    idx = {}
    for l in list(rel) + [q]:
        for a, _ in l.t:
            if a not in idx:
                idx[a] = len(idx)
    n = len(idx)
    work = {}

    def add(vec):
        """vec: list of n coefs + constant"""
        g = 0
        for k in vec[:n]:
            if k:
                g = gcd(g, k)
                if g == 1:
                    break
        if g == 0:
            return vec[n] >= 0
        if g > 1:
            vec = [k // g for k in vec]
        t = tuple(vec[:n])
        c = work.get(t)
        if c is None or vec[n] < c:
            work[t] = vec[n]
        return True

    for l in list(rel) + [q]:
        vec = [0] * (n + 1)
        for a, k in l.t:
            vec[idx[a]] = k
        vec[n] = l.c
        if not add(vec):
            return True
    for a, i in idx.items():
        if not signed_atom(a):
            vec = [0] * (n + 1)
            vec[i] = 1
            add(vec)
    stack = []
    left = set(range(n))
    while left:
        best = None
        for i in left:
            p = m = 0
            for t in work:
                if t[i] > 0:
                    p += 1
                elif t[i] < 0:
                    m += 1
            c = (p * m - p - m, i)
            if best is None or c < best[0]:
                best = (c, i)
        i = best[1]
        left.discard(i)
        pos, neg, rest = [], [], {}
        for t, c in work.items():
            if t[i] > 0:
                pos.append((t, c))
            elif t[i] < 0:
                neg.append((t, c))
            else:
                rest[t] = c
        stack.append((i, pos, neg))
        if len(pos) * len(neg) > 400:
            return None
        work = rest
        for p, cp in pos:
            kp = p[i]
            for m, cm in neg:
                km = -m[i]
                vec = [x * km + y * kp for x, y in zip(p, m)]
                vec.append(cp * km + cm * kp)
                if not add(vec):
                    return True
        if len(work) > 400:
            return None
    model = [0] * n
    for i, pos, neg in reversed(stack):
        lo = hi = None
        for t, c in pos:
            v = Fraction(-(c + sum(k * model[j] for j, k in enumerate(t) if k and j != i)), t[i])
            lo = v if lo is None or v > lo else lo
        for t, c in neg:
            v = Fraction(c + sum(k * model[j] for j, k in enumerate(t) if k and j != i), -t[i])
            hi = v if hi is None or v < hi else hi
        if lo is not None:
            up = -(-lo.numerator // lo.denominator)
            model[i] = up if hi is None or up <= hi else lo
        elif hi is not None:
            model[i] = hi.numerator // hi.denominator
    return {a: model[i] for a, i in idx.items()}


COUNT = 'C'
_AXIOMS = {}


def counts_axioms(rel, seed):
    """What is true of the numbers of characters before positions of a text: they grow with the position, by at
    most one for each byte."""
    r = _AXIOMS.get((rel, seed))
    if r is not None:
        return r
    by = {}
    for a in set(seed) | {a for g in rel for a, _ in g.t}:
        if isinstance(a, tuple) and a[0] == COUNT:
            by.setdefault(a[1], set()).add(lin(a[2]))
    out = set()
    plain = frozenset(g for g in rel if not any(isinstance(a, tuple) and a[0] == COUNT for a, _ in g.t))

    def count(t, x):
        if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 and isinstance(x.t[0][0], tuple) and x.t[0][0][:2] == ('at', t):
            return lin(x.t[0][0][2])
        return ZERO if x.const == 0 else atom((COUNT, t, x))

    def ge(l):
        if not l.t:
            return l.c >= 0
        if l.c >= 0 and all(k > 0 and not signed_atom(a) for a, k in l.t):
            return True
        return entails(frozenset(_related(plain, [a for a, _ in l.t])), l)

    for t, xs in by.items():
        end = atom(('len', t))
        for x in list(xs):
            if x.t and count(t, x) != atom((COUNT, t, x)):
                d = atom((COUNT, t, x)) - count(t, x)
                out |= {d, -d}
            if x.const == 0:
                out.add(-atom((COUNT, t, x)))
            if x != end:
                out.add(atom((COUNT, t, end)) - atom((COUNT, t, x)))
        for a in set(seed) | {a for g in rel for a, _ in g.t}:
            if isinstance(a, tuple) and a[:2] == ('at', t):
                xs.add(atom(a))
        xs = sorted(xs | {ZERO, end}, key=repr)
        if ge(end - 1):
            out |= {g for g in (count(t, x) - 1 for x in xs if ge(x - 1)) if g.t}
        for i, x in enumerate(xs):
            for y in xs[i + 1:]:
                for p, q in ((x, y), (y, x)):
                    if ge(q - p):
                        d = count(t, q) - count(t, p)
                        out |= {g for g in (d, q - p - d) if g.t}
    r = frozenset(out)
    if len(_AXIOMS) > 100000:
        _AXIOMS.clear()
    _AXIOMS[(rel, seed)] = r
    return r


def _related(facts, seed):
    """Facts connected to the atoms of the query."""
    atoms = set(seed)
    todo = list(facts)
    out = set()
    changed = True
    while changed:
        changed = False
        rest = []
        for l in todo:
            ats = [a for a, _ in l.t]
            if any(a in atoms for a in ats):
                out.add(l)
                atoms.update(ats)
                changed = True
            else:
                rest.append(l)
        todo = rest
    return out


class Facts:
    __slots__ = ('ge', 'ne', 'var', 'pred')

    def __init__(self, ge=frozenset(), ne=frozenset(), var=None, pred=None):
        self.ge = ge        # frozenset of Lin >= 0
        self.ne = ne        # frozenset of Lin != 0
        self.var = var if var is not None else {}     # term -> variant index
        self.pred = pred if pred is not None else {}  # term -> bool

    def copy(self):
        return Facts(self.ge, self.ne, dict(self.var), dict(self.pred))

    def holds_ge(self, l):
        """True if l >= 0 follows."""
        if not l.t:
            return l.c >= 0
        if l.c >= 0 and all(k > 0 and not signed_atom(a) for a, k in l.t):
            return True
        for g in self.ge:
            if g.t == l.t and g.c <= l.c:
                return True
        rel = _related(self.ge, [a for a, _ in l.t])
        if COUNT in {a[0] for g in rel | {l} for a, _ in g.t if isinstance(a, tuple)}:
            seed = {a for a, _ in l.t}
            texts = {a[1] for g in rel | {l} for a, _ in g.t if isinstance(a, tuple) and a[0] == COUNT}
            seed |= {a for g in self.ge for a, _ in g.t if isinstance(a, tuple) and a[0] == COUNT and a[1] in texts}
            seed |= {b for a in seed if isinstance(a, tuple) and a[0] == COUNT for b, _ in lin(a[2]).t}
            rel = _related(self.ge, seed)
            rel = _related(self.ge | counts_axioms(frozenset(rel), frozenset(seed)), [a for a, _ in l.t])
        return entails(frozenset(rel), l)

    def holds_eq(self, l):
        if not l.t:
            return l.c == 0
        return self.holds_ge(l) and self.holds_ge(-l)

    def decide(self, c):
        """True, False or None."""
        c = c_norm(c)
        if c is True or c is False:
            return c
        k = c[0]
        if k == 'ge':
            if self.holds_ge(c[1]):
                return True
            if self.holds_ge(-c[1] - 1):
                return False
            return None
        if k in ('eq', 'ne'):
            l = c[1]
            r = None
            if l in self.ne or -l in self.ne:
                r = False
            elif self.holds_ge(l):
                if self.holds_ge(-l):
                    r = True
                elif self.holds_ge(l - 1):
                    r = False
            elif self.holds_ge(-l):
                if self.holds_ge(-l - 1):
                    r = False
            elif self.holds_ge(l - 1) or self.holds_ge(-l - 1):
                r = False
            if r is None:
                return None
            return r if k == 'eq' else not r
        t = c[1]
        r = self.pred.get(t)
        if r is None:
            r = self.imply_pred(t)
        if r is None:
            return None
        return r if k == 'p' else not r

    def imply_pred(self, t):
        if t[0] == 'bnd':
            if self.holds_eq(t[2]) or self.holds_eq(t[2] - atom(('len', t[1]))):
                return True
            return True if any(v and x[0] == 'bnd' and x[1] == t[1] and self.holds_eq(x[2] - t[2]) for x, v in self.pred.items()) else None
        if t[0] == 'streq':
            a, b = t[1], t[2]
            for x, y in ((a, b), (b, a)):
                d = self.pred.get(('prefix', (x[0], x[1]), y))
                if d is False:
                    return False
                for kind in ('suffix', 'inside'):
                    k = self.pred.get((kind, x, y))
                    if k is False:
                        return False
                    d = d or k
                if d and self.holds_eq((x[2] - x[1]) - (y[2] - y[1])):
                    return True
            # equal to one literal excludes every other literal
            for o, v in self.pred.items():
                if v and o[0] == 'streq' and o != t:
                    shared = set(o[1:]) & set(t[1:])
                    if shared:
                        a = [x for x in o[1:] if x not in shared]
                        b = [x for x in t[1:] if x not in shared]
                        if a and b and a[0][0][0] == 'lit' and b[0][0][0] == 'lit' and a[0] != b[0]:
                            return False
        if t[0] in ('ws', 'digit') and isinstance(t[1], Lin):
            k = self.const_of(t[1])
            if k is not None and 0 <= k < 0x110000:
                return chr(k).isspace() if t[0] == 'ws' else chr(k) in '0123456789'
        return None

    def const_of(self, l):
        if not l.t:
            return l.c
        if len(l.t) == 1:
            a, k = l.t[0]
            for g in self.ge:
                if len(g.t) == 1 and g.t[0][0] == a:
                    # k' a + c >= 0
                    kk = g.t[0][1]
                    if kk > 0:
                        v = -(g.c // kk)
                        if self.holds_eq(atom(a) - v):
                            return k * v + l.c
        return None

    def assume(self, c):
        """Adds a condition in place; returns False when it contradicts."""
        c = c_norm(c)
        if c is True:
            return True
        if c is False:
            return False
        d = self.decide(c)
        if d is not None:
            return d
        k = c[0]
        if k == 'ge':
            self.ge = self.ge | {c[1]}
            self._tighten()
        elif k == 'eq':
            self.ge = self.ge | {c[1], -c[1]}
            for n in self.ne:
                if self.holds_eq(n):
                    return False
            return self._consistent_preds(c[1])
        elif k == 'ne':
            self.ne = self.ne | {c[1]}
            self._tighten()
        else:
            self.pred[c[1]] = (k == 'p')
        return True

    def _consistent_preds(self, l):
        for t, v in list(self.pred.items()):
            if t[0] in ('ws', 'digit'):
                r = self.imply_pred(t)
                if r is not None and r != v:
                    return False
        return True

    def _tighten(self):
        changed = True
        while changed:
            changed = False
            for n in list(self.ne):
                for l in (n, -n):
                    if self.holds_ge(l) and not self.holds_ge(l - 1):
                        self.ge = self.ge | {l - 1}
                        changed = True

    def key(self):
        return (self.ge, self.ne, tuple(sorted(self.var.items(), key=repr)), tuple(sorted(self.pred.items(), key=repr)))


# --- traversal of terms ------------------------------------------------------------------------
def subst_term(t, m):
    """Replaces sub-terms and atoms by map m (term/atom -> term or Lin)."""
    if isinstance(t, Lin):
        return subst_lin(t, m)
    if isinstance(t, tuple):
        if t in m:
            r = m[t]
            return r
        return tuple(subst_term(x, m) for x in t)
    if isinstance(t, V):
        return subst_val(t, m)
    return t


def subst_lin(l, m):
    out = Lin((), l.c)
    for a, k in l.t:
        if a in m:
            r = m[a]
            out = out + (r if isinstance(r, Lin) else atom(r)).scale(k)
        else:
            b = subst_term(a, m)
            out = out + atom(b).scale(k)
    return out


def subst_val(v, m):
    if isinstance(v, I):
        return I(subst_lin(v.l, m))
    if isinstance(v, B):
        return B(subst_cond(v.c, m))
    if isinstance(v, A):
        return A(v.ty, v.v, [subst_val(x, m) for x in v.f])
    if isinstance(v, S):
        return S(subst_term(v.t, m), v.ty)
    if isinstance(v, P):
        return P(subst_term(v.cell, m), subst_path(v.path, m))
    if isinstance(v, SL):
        return SL(subst_term(v.cell, m), subst_path(v.path, m), subst_lin(v.lo, m), subst_lin(v.hi, m))
    if isinstance(v, STR):
        return STR(subst_term(v.t, m), subst_lin(v.lo, m), subst_lin(v.hi, m))
    if isinstance(v, VV):
        return VV(v.ty, [(subst_val(t, m), subst_lin(a, m), subst_lin(b, m)) for t, a, b in v.segs], subst_lin(v.n, m))
    if isinstance(v, VO):
        return VO(v.ty, v.tag, subst_lin(v.n, m))
    if isinstance(v, IT):
        return IT(v.kind, [subst_val(x, m) if isinstance(x, V) else subst_lin(x, m) if isinstance(x, Lin) else subst_term(x, m) if isinstance(x, tuple) else x for x in v.f])
    return v


def subst_path(p, m):
    return tuple((e[0], subst_lin(e[1], m)) + tuple(e[2:]) if e[0] == 'i' else e for e in p)


def subst_cond(c, m):
    if c is True or c is False:
        return c
    if c[0] in ('ge', 'eq', 'ne'):
        return c_norm((c[0], subst_lin(c[1], m)))
    return (c[0], subst_term(c[1], m))


def walk_atoms(x, out):
    """Collects every atom and name that a value or term mentions."""
    if isinstance(x, Lin):
        for a, _ in x.t:
            out.add(a)
            walk_atoms(a, out)
    elif isinstance(x, tuple):
        out.add(x)
        for y in x:
            if isinstance(y, (tuple, Lin, V)):
                walk_atoms(y, out)
    elif isinstance(x, I):
        walk_atoms(x.l, out)
    elif isinstance(x, B):
        if isinstance(x.c, tuple):
            walk_atoms(x.c[1], out)
    elif isinstance(x, A):
        for y in x.f:
            walk_atoms(y, out)
    elif isinstance(x, S):
        walk_atoms(x.t, out)
    elif isinstance(x, P):
        walk_atoms(x.cell, out)
        for e in x.path:
            if e[0] == 'i':
                walk_atoms(e[1], out)
    elif isinstance(x, SL):
        walk_atoms(x.cell, out)
        walk_atoms(x.lo, out)
        walk_atoms(x.hi, out)
    elif isinstance(x, STR):
        walk_atoms(x.t, out)
        walk_atoms(x.lo, out)
        walk_atoms(x.hi, out)
    elif isinstance(x, VV):
        for t, a, b in x.segs:
            walk_atoms(t, out)
            walk_atoms(a, out)
            walk_atoms(b, out)
        walk_atoms(x.n, out)
    elif isinstance(x, VO):
        walk_atoms(x.n, out)
    elif isinstance(x, IT):
        for y in x.f:
            walk_atoms(y, out)
