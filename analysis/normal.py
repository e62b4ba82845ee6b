"""Normal form of a state at a loop head: names invented on the way are replaced by canonical
ones, sums that only occur together become one name, and facts are projected onto what is live."""
from fractions import Fraction
from math import gcd
from dom import *

FM_LIMIT = 160


def lins_of(x, out):
    """Every linear term in a value, including those inside terms."""
    if isinstance(x, Lin):
        out.append(x)
        for a, _ in x.t:
            lins_of(a, out)
    elif isinstance(x, tuple):
        for y in x:
            if isinstance(y, (tuple, Lin, V)):
                lins_of(y, out)
    elif isinstance(x, I):
        lins_of(x.l, out)
    elif isinstance(x, B):
        if isinstance(x.c, tuple):
            lins_of(x.c[1], out)
    elif isinstance(x, A):
        for y in x.f:
            lins_of(y, out)
    elif isinstance(x, S):
        lins_of(x.t, out)
    elif isinstance(x, P):
        lins_of(x.cell, out)
        lins_of(x.path, out)
    elif isinstance(x, SL):
        lins_of(x.cell, out)
        lins_of(x.path, out)
        lins_of(x.lo, out)
        lins_of(x.hi, out)
    elif isinstance(x, STR):
        lins_of(x.t, out)
        lins_of(x.lo, out)
        lins_of(x.hi, out)
    elif isinstance(x, VV):
        for t, a, b in x.segs:
            lins_of(t, out)
            lins_of(a, out)
            lins_of(b, out)
        lins_of(x.n, out)
    elif isinstance(x, VO):
        lins_of(x.n, out)
    elif isinstance(x, IT):
        for y in x.f:
            if isinstance(y, (V, Lin, tuple)):
                lins_of(y, out)


def is_name(a):
    return isinstance(a, tuple) and len(a) == 3 and a[0] == '?'


def bare_names(x, out):
    """Names in order of appearance that occur inside a term rather than as a summand."""
    if isinstance(x, Lin):
        for a, _ in x.t:
            if not is_name(a):
                bare_names(a, out)
    elif isinstance(x, tuple):
        if is_name(x):
            if x not in out:
                out[x] = len(out)
            return
        for y in x:
            if isinstance(y, (tuple, Lin, V)):
                bare_names(y, out)
    elif isinstance(x, I):
        bare_names(x.l, out)
    elif isinstance(x, B):
        if isinstance(x.c, tuple):
            bare_names(x.c[1], out)
    elif isinstance(x, A):
        for y in x.f:
            bare_names(y, out)
    elif isinstance(x, S):
        bare_names(x.t, out)
    elif isinstance(x, P):
        bare_names(x.cell, out)
        bare_names(x.path, out)
    elif isinstance(x, SL):
        for y in (x.cell, x.path, x.lo, x.hi):
            bare_names(y, out)
    elif isinstance(x, STR):
        for y in (x.t, x.lo, x.hi):
            bare_names(y, out)
    elif isinstance(x, VV):
        for s in x.segs:
            bare_names(s, out)
        bare_names(x.n, out)
    elif isinstance(x, VO):
        bare_names(x.n, out)
    elif isinstance(x, IT):
        for y in x.f:
            if isinstance(y, (V, Lin, tuple)):
                bare_names(y, out)


def tidy(rows):
    """Drops rows that others imply trivially."""
    zero = set()
    more = True
    rows = list(rows)
    while more:
        more = False
        for i, l in enumerate(rows):
            if l.t and any(a in zero for a, _ in l.t):
                rows[i] = l = Lin(tuple((a, k) for a, k in l.t if a not in zero), l.c)
            if l.t and l.c == 0 and all(k < 0 and not signed_atom(a) for a, k in l.t):
                zero |= {a for a, _ in l.t}
                more = True
    rows = rows + [Lin(((a, -1),), 0) for a in zero]
    best = {}
    for l in rows:
        if not l.t:
            continue
        g = 0
        for _, k in l.t:
            g = gcd(g, abs(k))
        if g > 1:
            l = Lin(tuple((a, k // g) for a, k in l.t), l.c // g)
        if l.c >= 0 and all(k > 0 and not signed_atom(a) for a, k in l.t):
            continue
        if l.t not in best or l.c < best[l.t]:
            best[l.t] = l.c
    return {Lin(t, c) for t, c in best.items()}


def eliminate(rows, dead):
    """Fourier-Motzkin projection of l >= 0 rows away from the dead atoms."""
    rows = set(rows)
    dead = [a for a in dead]
    while dead:
        # cheapest first
        def cost(a):
            p = sum(1 for l in rows for b, k in l.t if b == a and k > 0)
            n = sum(1 for l in rows for b, k in l.t if b == a and k < 0)
            return (p + (0 if signed_atom(a) else 1)) * n
        dead.sort(key=lambda a: (cost(a), _key_of(a)))
        a = dead.pop(0)
        pos, neg, rest = [], [], set()
        for l in rows:
            k = dict(l.t).get(a, 0)
            if k > 0:
                pos.append((k, l))
            elif k < 0:
                neg.append((-k, l))
            else:
                rest.add(l)
        if not signed_atom(a):
            pos.append((1, atom(a)))
        if len(pos) * len(neg) <= FM_LIMIT:
            for kp, lp in pos:
                for kn, ln in neg:
                    rest.add(lp.scale(kn) + ln.scale(kp))
        rows = tidy(rest)
    return rows


def _key_of(a):
    return repr(a)


def basis_of(st, lins, X):
    """Canonical names for the combinations of X atoms that occur. Returns (map for Lins) or None."""
    rows = []       # (reduced coefs over X, combination over basis)
    basis = []      # list of Lin over X
    exprs = {}
    for l in lins:
        vec = tuple((a, k) for a, k in l.t if a in X)
        if not vec or vec in exprs:
            continue
        v = {a: Fraction(k) for a, k in vec}
        comb = {}
        for piv, red, rc in rows:
            if piv in v and v[piv] != 0:
                f = v[piv]
                for a, k in red.items():
                    v[a] = v.get(a, 0) - f * k
                    if v[a] == 0:
                        del v[a]
                for b, k in rc.items():
                    comb[b] = comb.get(b, 0) + f * k
                    if comb[b] == 0:
                        del comb[b]
        if v:
            sign = 1
            b = len(basis)
            row = Lin(vec, 0)
            signed = True
            if all(k > 0 and not signed_atom(a) for a, k in vec) or st.facts.holds_ge(row):
                signed = False
            elif all(k < 0 and not signed_atom(a) for a, k in vec) or st.facts.holds_ge(-row):
                signed, sign = False, -1
            basis.append((row.scale(sign), signed))
            # v = row - sum(comb_i basis_i): solve for the pivot
            piv = sorted(v, key=repr)[0]
            f = v[piv]
            red = {a: k / f for a, k in v.items()}
            rc = {b: Fraction(sign) / f}
            for bb, k in comb.items():
                rc[bb] = rc.get(bb, 0) - k / f
            for i, (p2, r2, c2) in enumerate(rows):
                pass
            rows.append((piv, red, rc))
            exprs[vec] = {b: Fraction(sign)}
        else:
            exprs[vec] = comb
    for e in exprs.values():
        if any(k.denominator != 1 for k in e.values()):
            return None
    return basis, exprs, rows


def equalities(st):
    """Names that facts pin to a term: (name, term) pairs."""
    ge = st.facts.ge
    for l in ge:
        if len(l.t) == 1 and l.c == 0 and l.t[0][1] == -1 and not signed_atom(l.t[0][0]):
            a = l.t[0][0]
            if is_name(a):
                return a, ZERO
        if -l in ge and not any(isinstance(a, tuple) and a[0] == 'C' for a, _ in l.t):
            cand = [(a, k) for a, k in l.t if abs(k) == 1 and is_name(a if a[0] != 'sgn' else a[1])]
            if cand:
                a, k = max(cand, key=lambda x: (
                    not isinstance((x[0][1] if x[0][0] == 'sgn' else x[0])[2], tuple), repr(x[0])))
                rest = Lin(tuple((b, j) for b, j in l.t if b != a), l.c)
                return a, rest.scale(-k)
    return None


def substitute(st, m):
    """Replaces names all over a state."""
    st.store = {(subst_term(c, m) if c[0] == 'm' else c): subst_val(v, m) for c, v in st.store.items()}
    for k, v in list(st.mon.items()):
        if isinstance(v, V):
            st.mon[k] = subst_val(v, m)
        elif isinstance(v, Lin):
            st.mon[k] = subst_lin(v, m)
        elif isinstance(v, tuple):
            st.mon[k] = subst_term(v, m)
    st.facts.ge = frozenset(subst_lin(l, m) for l in st.facts.ge)
    st.facts.ne = frozenset(subst_lin(l, m) for l in st.facts.ne)
    st.facts.var = {subst_term(t, m): v for t, v in st.facts.var.items()}
    st.facts.pred = {subst_term(t, m): v for t, v in st.facts.pred.items()}


def forget_widths(eng, st):
    """The widths of characters passed so far are numbers like any other."""
    lins = []
    for c, v in st.store.items():
        lins_of(c, lins)
        lins_of(v, lins)
    for v in st.mon.values():
        if isinstance(v, (V, Lin, tuple)):
            lins_of(v, lins)
    m = {}
    for l in lins:
        for a, _ in l.t:
            if isinstance(a, tuple) and a[0] == 'cw' and a not in m:
                m[a] = eng.fresh('w')
    if not m:
        return
    substitute(st, m)


def apply_equalities(st):
    skip = 0
    while skip < 20:
        r = equalities(st)
        if r is None:
            return
        a, e = r
        names = {}
        for c, v in st.store.items():
            bare_names(c, names)
            bare_names(v, names)
        for v in st.mon.values():
            if isinstance(v, (V, Lin, tuple)):
                bare_names(v, names)
        if (a[1] if a[0] == 'sgn' else a) in names:
            return
        m = {a: e}
        substitute(st, m)
        ge = set(st.facts.ge)
        if not signed_atom(a):
            ge.add(e)
        st.facts.ge = frozenset(l for l in ge if l.t)
        skip += 1


def normalize(eng, st, keep_atom):
    st.facts.ge = frozenset(tidy(st.facts.ge))
    apply_equalities(st)
    vals = [st.store[c] for c in sorted(st.store, key=repr)]
    cells = sorted(st.store, key=repr)
    mons = [st.mon[k] for k in sorted(st.mon, key=repr) if isinstance(st.mon[k], (V, Lin, tuple))]
    everything = cells + vals + mons
    lins = []
    for x in everything:
        lins_of(x, lins)
    names = {}
    for x in everything:
        bare_names(x, names)
    # names that are inside live predicates and variants keep being names
    for t in list(st.facts.var) + list(st.facts.pred):
        sub = {}
        bare_names(t, sub)
        ls = []
        lins_of(t, ls)
        for l in ls:
            if any(is_name(a) and a not in names for a, _ in l.t):
                lins.append(l)
    X = set()
    for l in lins:
        for a, _ in l.t:
            b = a[1] if isinstance(a, tuple) and len(a) == 2 and a[0] == 'sgn' else a
            if is_name(b) and b not in names:
                X.add(a)
    r = basis_of(st, lins, X)
    ren = {}
    for i, n in enumerate(names):
        ren[n] = ('?', n[1] if n[1] in ('phi', 'any', 'unk') else 'o', ('c', i))
    if r is None:
        k = len(names)
        for a in sorted(X, key=repr):
            b = a[1] if a[0] == 'sgn' else a
            ren[b] = ('?', b[1], ('c', k))
            k += 1
        basis, exprs, rows = [], {}, []
        bmap = None
    else:
        basis, exprs, rows = r
        tags = []
        for (row, signed), i in zip(basis, range(len(basis))):
            imp = None
            for a, _ in row.t:
                b = a[1] if a[0] == 'sgn' else a
                if b[1] in ('phi', 'delta', 'unk', 'any'):
                    imp = b[1]
            nm = ('?', imp or 'n', ('c', len(names) + i))
            tags.append(('sgn', nm) if signed else nm)
        bmap = tags

    def map_lin(l):
        out = lin(l.c)
        vec = tuple((a, k) for a, k in l.t if a in X)
        for a, k in l.t:
            if a not in X:
                out = out + atom(map_term(a)).scale(k)
        if vec:
            if bmap is None:
                for a, k in vec:
                    out = out + atom(map_term(a)).scale(k)
            else:
                for b, k in exprs[vec].items():
                    out = out + atom(bmap[b]).scale(int(k))
        return out

    def map_term(t):
        if isinstance(t, Lin):
            return map_lin(t)
        if isinstance(t, V):
            return map_val(t)
        if isinstance(t, tuple):
            if t in ren:
                return ren[t]
            return tuple(map_term(x) if isinstance(x, (tuple, Lin, V)) else x for x in t)
        return t

    def map_val(v):
        if isinstance(v, I):
            return I(map_lin(v.l))
        if isinstance(v, B):
            if v.c is True or v.c is False:
                return v
            return B((v.c[0], map_term(v.c[1])))
        if isinstance(v, A):
            return A(v.ty, v.v, [map_val(x) for x in v.f])
        if isinstance(v, S):
            return S(map_term(v.t), v.ty)
        if isinstance(v, P):
            return P(map_term(v.cell), map_term(v.path))
        if isinstance(v, SL):
            return SL(map_term(v.cell), map_term(v.path), map_lin(v.lo), map_lin(v.hi))
        if isinstance(v, STR):
            return STR(map_term(v.t), map_lin(v.lo), map_lin(v.hi))
        if isinstance(v, VV):
            return VV(v.ty, [(map_val(t), map_lin(a), map_lin(b)) for t, a, b in v.segs], map_lin(v.n))
        if isinstance(v, VO):
            return VO(v.ty, v.tag, map_lin(v.n))
        if isinstance(v, IT):
            return IT(v.kind, [map_val(x) if isinstance(x, V) else map_term(x) if isinstance(x, (Lin, tuple)) else x for x in v.f])
        return v

    def mappable(a):
        try:
            map_term(a)
            return True
        except KeyError:
            return False

    # facts -----------------------------------------------------------------------------------
    ge = set(st.facts.ge)
    subst = {}
    tmp = [('sgn', ('#b', i)) if signed else ('#b', i) for i, (_, signed) in enumerate(basis)]
    if bmap is not None:
        # x_piv = sum(rc_b * b) - sum_{a != piv} red_a * a     (rational)
        for piv, red, rc in rows:
            den = 1
            for k in list(red.values()) + list(rc.values()):
                den = den * k.denominator // gcd(den, k.denominator)
            e = ZERO
            for b, k in rc.items():
                e = e + atom(tmp[b]).scale(int(k * den))
            for a, k in red.items():
                if a != piv:
                    e = e - atom(a).scale(int(k * den))
            subst[piv] = (den, e)

        def repl(l):
            again = True
            while again:
                again = False
                for a, k in l.t:
                    if a in subst:
                        den, e = subst[a]
                        l = Lin(tuple((x, y) for x, y in l.t if x != a), l.c).scale(den) + e.scale(k)
                        again = True
                        break
            return l
        new = set()
        for l in ge:
            new.add(repl(l))
        for piv in subst:
            if not signed_atom(piv):
                new.add(repl(atom(piv)))
        ge = new
    dead = set()
    for l in ge:
        for a, _ in l.t:
            if a in tmp:
                continue
            if bmap is not None and a in X:
                dead.add(a)
            elif a not in X and not (keep_atom(a) and mappable(a)):
                dead.add(a)
    ge = eliminate(tidy(ge), dead)
    bm = dict(zip(tmp, bmap or ()))
    out = set()
    for l in ge:
        o = lin(l.c)
        for a, k in l.t:
            o = o + atom(bm[a] if a in bm else map_term(a)).scale(k)
        out.add(o)
    st.facts.ge = frozenset(tidy(out))
    ne = set()
    for l in st.facts.ne:
        if any(a in X for a, _ in l.t):
            vec = tuple((a, k) for a, k in l.t if a in X)
            nv = tuple((a, -k) for a, k in vec)
            if bmap is not None and vec not in exprs:
                if nv in exprs:
                    l = -l
                else:
                    continue
        if all(a in X or keep_atom(a) for a, _ in l.t):
            try:
                ne.add(map_lin(l))
            except KeyError:
                pass
    st.facts.ne = frozenset(ne)
    var, pred = {}, {}
    for t, v in st.facts.var.items():
        if keep_atom(t):
            try:
                var[map_term(t)] = v
            except KeyError:
                pass
    for t, v in st.facts.pred.items():
        try:
            pred[map_term(t)] = v
        except KeyError:
            pass
    st.facts.var, st.facts.pred = var, pred
    store = {}
    for c in cells:
        c2 = map_term(c) if c[0] == 'm' else c
        store[c2] = map_val(st.store[c])
    st.store = store
    for k in list(st.mon):
        v = st.mon[k]
        if isinstance(v, V):
            st.mon[k] = map_val(v)
        elif isinstance(v, (Lin, tuple)):
            st.mon[k] = map_term(v)
    st.frames = [eng.mapframe(f, map_term) for f in st.frames]
