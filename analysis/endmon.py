"""Do loops end?

Each time the analysis comes to the head of a loop it compares the live values with those of the last visit (kept in the
state as numbers of their own). Where one and the same measure - what is left of a text, a slice or an iterator, a number
that goes down to zero or up to a bound - has shrunk on every way back to the head, the loop ends. In an exact run a loop
that comes back to its head with all live values as they were never ends.
"""
from dom import *
from interp import Dead

MARK = 'end'
FIXED = 1 << 16         # a number that stays below this is bounded


def bodies(prog, fid):
    """head -> blocks of its natural loop"""
    memo = prog.__dict__.setdefault('_bodies', {})
    if fid in memo:
        return memo[fid]
    blocks = prog.fns[fid]['blocks']
    preds, back = {}, []
    color, stack = {0: 1}, [(0, iter(prog.succs(blocks[0][1])))]
    while stack:
        b, it = stack[-1]
        for s in it:
            preds.setdefault(s, set()).add(b)
            c = color.get(s, 0)
            if c == 0:
                color[s] = 1
                stack.append((s, iter(prog.succs(blocks[s][1]))))
                break
            if c == 1:
                back.append((b, s))
        else:
            color[b] = 2
            stack.pop()
    out = {}
    for u, h in back:
        body, todo = out.setdefault(h, {h}), [u]
        while todo:
            b = todo.pop()
            if b not in body:
                body.add(b)
                todo += preds.get(b, ())
    memo[fid] = out
    return out


def keep(e, st, h, here, ctx):
    """Is what was noted at head h still from this stay in its loop, when the analysis is at ctx?"""
    n = len(h)
    if n > len(ctx):
        return False
    if h[:-1] != ctx[:n - 1] or h[-1][0] != ctx[n - 1][0]:
        return False
    if h == ctx:
        return True
    return ctx[n - 1][1] in bodies(e.p, h[-1][0]).get(h[-1][1], ())


def measures(e, st, every=False):
    """name -> (kind, amount): amounts of kind 'left' are never negative."""
    out = {}
    top = st.frames[-1].depth
    todo = [c for c in st.store if c[0] == 'L' and (every or c[1] == top)]
    seen = set(todo)

    def walk(v, name):
        if isinstance(v, STR):
            out[name] = ('left', v.hi - v.lo)
        elif isinstance(v, SL):
            out[name] = ('left', v.hi - v.lo)
            point(v.cell)
        elif isinstance(v, I):
            out[name] = ('number', v.l)
        elif isinstance(v, B):
            if v.c in (True, False):
                out[name] = ('flag', lin(1 if v.c else 0))
        elif isinstance(v, P):
            point(v.cell)
        elif isinstance(v, IT) and v.kind == 'split':
            out[name] = ('left', v.f[0].hi - v.f[0].lo + (0 if v.f[2].c is True else 1))
        elif isinstance(v, IT) and v.kind == 'into_iter':
            out[name] = ('left', -lin(v.f[1]))
        elif isinstance(v, IT):
            for i, x in enumerate(v.f):
                if isinstance(x, V):
                    walk(x, name + (i,))
        elif isinstance(v, A):
            for i, x in enumerate(v.f):
                walk(x, name + (v.v, i))
            if len(v.f) == 2 and all(isinstance(x, I) for x in v.f):
                # from one number up to another
                out[name + ('gap',)] = ('gap', v.f[1].l - v.f[0].l)
        elif isinstance(v, VV):
            out[name] = ('number', lin(v.n))

    def point(c):
        if c not in seen and c[0] == 'L':
            seen.add(c)
            todo.append(c)
        elif c not in seen and c in st.store:
            # of what is only borrowed, how long the lists are
            seen.add(c)
            v = st.store[c]
            for i, x in enumerate(v.f if isinstance(v, A) else (v,)):
                if isinstance(x, VV):
                    out[(c, i)] = ('number', lin(x.n))

    while todo:
        c = todo.pop()
        if c in st.store:
            walk(st.store[c], (c,))
    return out


def span(e, ctx):
    fid, bb = ctx[-1]
    return e.p.fns[fid]['name'], e.p.fns[fid]['blocks'][bb][2]


def arrive(e, st):
    """Called before the analysis joins what it knows at a loop head."""
    ctx = e.context(st)
    now = measures(e, st)
    mine, less, outer = {}, set(), None
    for k in [k for k in st.mon if isinstance(k, tuple) and k[0] == MARK]:
        if not keep(e, st, k[1], None, ctx):
            del st.mon[k]
        elif k[1] == ctx:
            mine[k[2]] = st.mon.pop(k).l
            if len(k) > 3:
                less.add(k[2])
        else:
            # an outer loop: all that has to be known is whether there is less
            outer = outer if outer is not None else measures(e, st, True)
            if k[2] not in outer:
                continue
            kind, l = outer[k[2]]
            g = st.mon[k].l
            if kind in ('left', 'gap') and g - l != 1 and st.facts.holds_ge(g - l - 1):
                del st.mon[k]
                st.mon[k[:3] + ('less',)] = I(l + 1)
    r = e.ends.setdefault((span(e, ctx), ctx[-1]), {'ways': None, 'rounds': 0, 'ex': None, 'weak': None})
    if not mine:
        return
    good = set()
    flags = {n: l.const for n, (k, l) in now.items() if k == 'flag' and n in mine}
    same = [(name, l) for name, (_, l) in now.items() if name in mine and mine[name] == l and now[name][0] != 'flag' and name not in less]
    for name, (kind, l) in now.items():
        if name not in mine:
            continue
        d = mine[name] - l
        if kind == 'flag':
            continue
        if kind == 'left':
            if st.facts.holds_ge(d - 1):
                good |= {(name, 'less')} | {(name, 'less', f, w) for f in flags for w in ('on', 'off')}
            elif st.facts.holds_ge(d):
                # or as much is left and something is settled
                good |= {(name, 'less', f, 'on' if x else 'off') for f, x in flags.items() if lin(x) != mine[f]}
        elif st.facts.holds_ge(d - 1):
            if st.facts.holds_ge(l + (1 if kind == 'gap' else 0)):
                good.add((name, 'less'))
        elif kind == 'number' and st.facts.holds_ge(-d - 1):
            good |= {(name, 'more', o) for o, x in same if st.facts.holds_ge(x - l)}
            if st.facts.holds_ge(lin(FIXED) - l):
                good.add((name, 'more'))
    r['rounds'] += 1
    r['ways'] = good if r['ways'] is None else r['ways'] & good
    if not r['ways'] and r['ex'] is None:
        r['ex'], r['weak'] = st.trail_list(), [(n, mine[n], l) for n, (_, l) in now.items() if n in mine]


def leave(e, out):
    """Called with the state the analysis goes on with."""
    ctx = e.context(out)
    for name, (_, l) in measures(e, out).items():
        out.mon[(MARK, ctx, name)] = I(l)


def numbers(e, sh, lv):
    """Where the plain numbers are among the leaves."""
    out, i = set(), 0
    for x in sh:
        k = e.leaf_count(x)
        if x == 'I':
            out.add(i)
        i += k
    return out if i == len(lv) else set()


def live(e, st):
    """The cells that are still looked at, in a fixed order."""
    todo = list(e.live_roots(st)) + sorted((c for c in st.store if c[0] in ('m', 's')), key=repr)
    seen = set(todo)
    while todo:
        c = todo.pop()
        if c in st.store:
            yield c, st.store[c]
            for d in cells_of(st.store[c]):
                if d not in seen:
                    seen.add(d)
                    todo.append(d)


def stuck(e, st):
    """In an exact run: is everything as it was at the last visit?"""
    ctx = e.context(st)
    for h in [h for h in st.past if not keep(e, st, h, None, ctx)]:
        del st.past[h]
    sh, lv, lists = [], [], []
    for c, v in live(e, st):
        sh.append(('cell', c))
        if isinstance(v, VV):
            e.leaves(v, lists, lists)
        else:
            e.leaves(v, sh, lv)
    r = e.ends.setdefault((span(e, ctx), ctx[-1]), {'ways': None, 'rounds': 0, 'ex': None, 'weak': None})
    old = st.past.get(ctx)
    if any(isinstance(a, tuple) and len(a) == 3 and a[0] == '?' and isinstance(a[2], tuple) and a[2][:1] == ('c',) for a in names(lv)):
        st.past.pop(ctx, None)
        return
    now = (tuple(sh), tuple(lv), tuple(lists))
    n = 0
    if old and old[0][0] == now[0]:
        nums = numbers(e, [x for x in sh if not (isinstance(x, tuple) and x[:1] == ('cell',))], lv)
        moved = {i for i, (x, y) in enumerate(zip(old[0][1], lv)) if x != y}
        if not moved:
            n = old[1] + 1
            if old[0] == now or n > 40:
                r['stuck'] = ('with nothing changed' + ('' if old[0] == now else ' but lists that grow'), st.trail_list())
                raise Dead('goes round for ever')
        elif moved <= nums and old[0][2] == now[2]:
            if st.probe == ctx:
                r['stuck'] = ('with nothing changed but numbers that it does not look at', st.trail_list())
                raise Dead('goes round for ever')
            if st.probe is None:
                # once more, with numbers that could be anything
                s = st.copy()
                s.probe = ctx
                i = 0
                for c, v in live(e, st):
                    if isinstance(v, VV):
                        continue
                    a, b = [], []
                    e.leaves(v, a, b)
                    new = [atom(e.fresh('any')) if i + j in moved else x for j, x in enumerate(b)]
                    if any(i + j in moved for j in range(len(b))):
                        s.store[c] = e.rebuild(v, iter(new))
                        for x, y in zip(b, new):
                            if x is not y:
                                s.assume(('ge', y))
                    i += len(b)
                sh, lv = [], []
                for c, v in live(e, s):
                    sh.append(('cell', c))
                    if not isinstance(v, VV):
                        e.leaves(v, sh, lv)
                s.past[ctx] = ((tuple(sh), tuple(lv), now[2]), 0)
                s.done = 'head'
                e.extra.append(s)
    if st.probe == ctx:
        raise Dead('depends on it')
    st.past[ctx] = (now, n)


def names(x):
    out = set()
    for y in x:
        walk_atoms(y, out)
    return out


def cells_of(v):
    if isinstance(v, (P, SL)):
        return [v.cell]
    if isinstance(v, (A, IT)):
        return [c for x in v.f if isinstance(x, V) for c in cells_of(x)]
    if isinstance(v, VV):
        return [c for t, _, _ in v.segs if isinstance(t, V) for c in cells_of(t)]
    return []
