"""Reading data back with the search library: which item a search stops at, what a reader returns and
what they leave behind."""
from dom import *
from interp import Engine, GiveUp
from oblig import Monitor, forget_items
from stdmodel import Natives, skey, as_str, C
import readtoken
from parsemon import strip

SEARCH = ('s', 'search')
KINDS = {'bool': 'Bool', 'f64': 'F64', 'string': 'String', 'node': 'StartNode', 'end_node': 'EndNode'}


class SearchMonitor(Monitor):
    def __init__(self, prog, root):
        Monitor.__init__(self, prog)
        self.root, self.where = root, 'Search::' + root[2:]
        self.fn = prog.fns[prog.roots[root]]
        self.ty = strip(prog, self.fn['locals'][1])
        fs = prog.types[self.ty]['variants'][0]['fields']
        self.i_data = [n for n, _ in fs].index('data')
        self.i_range = [n for n, _ in fs].index('range')
        self.data_ty, self.opt_ty = fs[self.i_data][1], fs[self.i_range][1]
        self.slice_ty = prog.types[self.data_ty]['to']
        self.item_ty = prog.types[self.slice_ty]['of']
        self.range_ty = prog.types[self.opt_ty]['variants'][1]['fields'][0][1]
        self.find = root[2:].startswith('for_')
        self.kind = KINDS[root[2:].replace('for_', '')]
        self.valued = self.find and self.kind in ('Bool', 'F64', 'String')
        self.pid = 'C24' if self.find else 'C23'

    # --- what it is given -------------------------------------------------------------------
    def args(self):
        e = self.e
        out = [P(SEARCH)]
        for i in range(2, self.fn['argc'] + 1):
            out.append(e.mk(('arg', ('name', 'value')[i - 2] if i - 2 < (2 if self.valued else 1) else 'continue'), self.fn['locals'][i]))
        self.arg = out
        return out

    def setup(self, st):
        e = self.e
        self.old = S(('arg', 'search'), self.ty)
        st.store[SEARCH] = e.expand(st, self.old)
        self.data = e.mk(('f', ('arg', 'search'), 0, self.i_data), self.data_ty)
        self.old_range = e.mk(('f', ('arg', 'search'), 0, self.i_range), self.opt_ty)
        st.mon['k'], st.mon['calls'] = I(0), 0
        st.mon['at'] = None

    # --- items ------------------------------------------------------------------------------
    def item(self, st, i):
        return self.e.read(st, self.data.cell, self.data.path + (('i', lin(i), self.item_ty),))

    def ifield(self, x, st, n):
        fs = self.p.types[self.item_ty]['variants'][0]['fields']
        j = [f for f, _ in fs].index(n)
        return self.e.proj(st, x, (('f', j, fs[j][1]),))

    def payload(self, st, x, var, j):
        d = self.ifield(x, st, 'data')
        fs = self.p.types[d.ty]['variants'][var]['fields']
        return self.e.proj(st, d, (('v', var), ('f', j, fs[j][1])))

    def matches(self, st, i, value=True):
        """True, False or None: whether item i is what is looked for."""
        x = self.item(st, i)
        d = self.ifield(x, st, 'data')
        var = st.facts.var.get(d.t)
        if var is None:
            return None
        if self.p.types[d.ty]['variants'][var]['name'] != self.kind:
            return False
        out = self.text_same(st, self.payload(st, x, var, 0), self.arg[1])
        if out is False or not (self.valued and value):
            return out
        v, w = self.payload(st, x, var, 1), self.arg[2]
        if self.kind == 'String':
            r = self.text_same(st, v, w)
        elif self.kind == 'Bool':
            a, b = [st.facts.decide(y.c) for y in (v, w)]
            r = None if a is None or b is None else a == b
            if r is None:
                for t in (('same', v.c, w.c), ('same', w.c, v.c)):
                    r = st.facts.decide(('p', t)) if r is None else r
        else:
            r = None
            for t, val in st.facts.pred.items():
                if isinstance(t, tuple) and t[0] == 'fcmp' and t[1] == 'Eq' and {t[2], t[3]} == {v, w}:
                    r = val
        if r is False:
            return False
        return r if out else None

    def text(self, st, v):
        k = 0
        while isinstance(v, P) and k < 6:
            v = self.e.read(st, v.cell, v.path)
            k += 1
        if isinstance(v, STR):
            return v
        if isinstance(v, S):
            return STR(v.t, 0, atom(('len', v.t)))
        return None

    def text_same(self, st, a, b):
        a, b = self.text(st, a), self.text(st, b)
        if a is None or b is None:
            return None
        if a == b:
            return True
        if st.facts.decide(('eq', (a.hi - a.lo) - (b.hi - b.lo))) is False:
            return False
        k = tuple(sorted((skey(a), skey(b)), key=repr))
        return st.facts.decide(('p', ('streq',) + k))

    def advance(self, st):
        """Items from the first on that are known not to match."""
        n = 0
        while n < 50:
            k = st.mon['k'].l
            if st.holds_ge(k, self.data.hi) or self.matches(st, k) is not False:
                return
            st.mon['k'] = I(k + 1)
            n += 1

    def at_head(self, st):
        if self.find:
            self.advance(st)
            # what is known about items that were passed is summed up by k
            forget_items(st, self.data, st.mon['k'].l)

    # --- comparison of what is left with what should be ----------------------------------------
    def same_range(self, st, a, off, ln):
        fs = self.p.types[self.range_ty]['variants'][0]['fields']
        for j, (n, ty) in enumerate(fs):
            if n in ('offset', 'length'):
                x = self.e.proj(st, a, (('f', j, ty),))
                if not st.holds_eq(x.l, off if n == 'offset' else ln):
                    return False
        return True

    def item_range(self, st, i):
        x = self.item(st, i)
        return self.ifield(x, st, 'offset').l, self.ifield(x, st, 'length').l

    def some_range(self, st, v):
        """(offset, length) of an optional range, None if there is none."""
        e = self.e
        if e.variant(st, v) == 0:
            return None
        r = e.proj(st, v, (('v', 1), ('f', 0, self.range_ty)))
        fs = self.p.types[self.range_ty]['variants'][0]['fields']
        d = {n: e.proj(st, r, (('f', j, ty),)) for j, (n, ty) in enumerate(fs) if n in ('offset', 'length')}
        return d['offset'].l, d['length'].l

    def state_is(self, st, search, R, lo, rng):
        """The search looks at the items from lo on and remembers the range rng (None: the one it had)."""
        e = self.e
        data = e.proj(st, search, (('f', self.i_data, self.data_ty),))
        ok = isinstance(data, SL) and data.cell == self.data.cell and data.path == self.data.path
        if self.need(st, self.pid, R, ok, 'looks at %r' % (data,)):
            self.need_eq(st, self.pid, R, data.lo, lo, 'goes on at item %r' % (data.lo,))
            self.need_eq(st, self.pid, R, data.hi, self.data.hi, 'ends at item %r' % (data.hi,))
        got = e.proj(st, search, (('f', self.i_range, self.opt_ty),))
        if rng is None:
            rng = self.some_range(st, self.old_range)
        got = self.some_range(st, got)
        if rng is None or got is None:
            self.need(st, self.pid, R, rng is None and got is None, 'remembers the range %r' % (got,))
        else:
            for a, b in zip(got, rng):
                self.need_eq(st, self.pid, R, a, b, 'remembers the range %r, %r' % got)

    def error_at(self, st, v, R, off, ln):
        e = self.e
        ty = self.p.types[v.ty]['variants'][1]['fields'][0][1]
        err = e.proj(st, v, (('v', 1), ('f', 0, ty)))
        for j, (n, fty) in enumerate(self.p.types[ty]['variants'][0]['fields']):
            if n in ('offset', 'length'):
                x = e.proj(st, err, (('f', j, fty),))
                self.need_eq(st, self.pid, R, x.l, off if n == 'offset' else ln, 'reports at %s %r' % (n, x))
            elif n == 'data':
                x = e.proj(st, err, (('f', j, fty),))
                self.need(st, self.pid, R, self.p.types[x.ty]['variants'][e.variant(st, x)]['name'] == 'Conversion', 'reports %r' % (x,))

    # --- searching ----------------------------------------------------------------------------
    def call_opaque(self, e, st, fr, fv, args, rty, span):
        m = st.mon
        if fv.t != ('arg', 'continue') and 'continue' not in repr(fv.t):
            return None
        self.advance(st)
        R = 'the search goes on right after the first item that matches'
        k = m['k'].l
        m['calls'] += 1
        self.need(st, 'C24', R, self.matches(st, k) is True, 'goes on though item %r is not known to match' % (k,))
        self.state_is(st, args[0], R, k + 1, self.item_range(st, k))
        r = S(('arg', 'result'), rty)
        m['at'] = I(k)
        return r

    def returned(self, st, v):
        e, m = self.e, st.mon
        if self.find:
            self.advance(st)
            if m['calls']:
                self.need(st, 'C24', 'what the search finds is what its continuation returns', m['calls'] == 1 and isinstance(v, S) and v.t == ('arg', 'result'),
                          'returns %r' % (v,))
                return
            R = 'a search without a match fails at the range remembered'
            if not self.need(st, 'C24', R, e.variant(st, v) == 1, 'succeeds with no match'):
                return
            self.need(st, 'C24', 'a search fails only after every item was looked at', ('ge', m['k'].l - self.data.hi),
                      'gives up at item %r of %r' % (m['k'].l, self.data.hi))
            rng = self.some_range(st, self.old_range) or (lin(0), lin(0))
            self.error_at(st, v, R, *rng)
            return
        ok = e.variant(st, v) == 0
        search = st.store[SEARCH]
        if st.truth(B(('eq', self.data.hi))):
            R = 'reading past the end fails and changes nothing'
            if self.need(st, 'C23', R, not ok, 'succeeds without an item'):
                self.error_at(st, v, R, *(self.some_range(st, self.old_range) or (lin(0), lin(0))))
            self.state_is(st, search, R, ZERO, None)
            return
        mt = self.matches(st, ZERO)
        if ok:
            R = 'reading succeeds only on an item of the kind and name asked for'
            if not self.need(st, 'C23', R, mt is True, 'succeeds on an item that %s' % ('does not match' if mt is False else 'was not compared')):
                return
            R = 'a read item is returned and passed'
            self.state_is(st, search, R, lin(1), self.item_range(st, ZERO))
            x = self.item(st, ZERO)
            d = self.ifield(x, st, 'data')
            vi = st.facts.var[d.t]
            ty = self.p.types[v.ty]['variants'][0]['fields'][0][1]
            got = e.proj(st, v, (('v', 0), ('f', 0, ty)))
            if self.kind in ('Bool', 'F64', 'String'):
                want = self.payload(st, x, vi, 1)
                if self.kind == 'String':
                    same = self.text(st, got) == self.text(st, want)
                elif self.kind == 'Bool':
                    a, b = [y.c if y.c in (True, False) else st.facts.decide(y.c) for y in (got, want)]
                    same = got == want or a is not None and a == b
                else:
                    same = got == want
                self.need(st, 'C23', R, same, 'returns %r' % (got,))
        else:
            R = 'an item of the kind and name asked for is read'
            if mt is None:
                self.need(st, 'C23', R, False, 'fails without comparing the item')
            else:
                self.need(st, 'C23', R, mt is False, 'fails on an item that matches')
            R = 'a failed read changes nothing and reports the item'
            self.state_is(st, search, R, ZERO, None)
            self.error_at(st, v, R, *self.item_range(st, ZERO))


class NewMonitor(Monitor):
    def __init__(self, prog, root):
        Monitor.__init__(self, prog)
        self.where = 'Search::new'
        self.fn = prog.fns[prog.roots[root]]
        self.pid = 'C24'

    def args(self):
        return [self.e.mk(('arg', 'data'), self.fn['locals'][1])]

    def setup(self, st):
        pass

    def returned(self, st, v):
        e = self.e
        want = self.args()[0]
        for j, (n, ty) in enumerate(self.p.types[v.ty]['variants'][0]['fields']):
            x = e.proj(st, v, (('f', j, ty),))
            if n == 'data':
                self.need(st, 'C24', 'a new search looks at all the data', x == want, 'looks at %r' % (x,))
            elif n == 'range':
                self.need(st, 'C24', 'a new search looks at all the data', e.variant(st, x) == 0, 'remembers a range')

    def call(self, *a):
        return None


def parts(prog):
    return sorted(r for r in prog.roots if r.startswith('s_'))


def run_search(prog, root, time_limit=60):
    mon = (NewMonitor if root == 's_new' else SearchMonitor)(prog, root)
    eng = Engine(prog, Natives(readtoken.install(prog)), hooks=[mon], monitor=mon, time_limit=time_limit)
    eng.track_panics = Engine.PANICS
    eng.track_ends = Engine.ENDS
    mon.e = eng
    eng.run([eng.start(prog.roots[root], mon.args(), mon.setup)])
    return eng, mon


SearchMonitor.call = lambda self, *a: None

if __name__ == '__main__':
    import sys, time
    from mir import Program
    sys.setrecursionlimit(20000)
    if len(sys.argv) > 2 and sys.argv[2].startswith('-u'):
        Engine.UNROLL = int(sys.argv.pop(2)[2:])
    p = Program(sys.argv[1])
    for r in sys.argv[2:] or parts(p):
        t0 = time.time()
        eng, mon = run_search(p, r)
        print('==', r, eng.blocks_run, eng.paths, len(eng.returned), eng.incomplete, eng.unknown, '%.1fs' % (time.time() - t0))
        for k, s in sorted(mon.book.d.items()):
            print('   ', k[1:], s['ok'], s['bad'], s['open'], (s['ex'] or (s['why'],))[0])
