"""The cursor over data that converters are written with, at every position of a list of data."""
from dom import *
from interp import Engine
from oblig import forget_items
from stdmodel import Natives, skey
import readtoken
from searchmon import SearchMonitor, KINDS
from oblig import Monitor

PID = 'C20'


class CursorMonitor(SearchMonitor):
    valued = False

    def __init__(self, prog, root):
        Monitor.__init__(self, prog)
        self.root, self.where = root, 'Convert::' + root[2:].replace('new_', '')
        self.fn = prog.fns[prog.roots[root]]
        self.data_ty = self.fn['locals'][1]
        self.slice_ty = prog.types[self.data_ty]['to']
        self.item_ty = prog.types[self.slice_ty]['of']
        self.kind = 'StartNode' if root == 'u_start_node' else KINDS.get(root[2:])
        self.pid = PID
        self.ignore = root.endswith('ignore')

    def args(self):
        e = self.e
        names = ['data', 'k'] + {'u_update': ['range'], 'u_subtract': ['m'], 'u_source': ['m']}.get(self.root, ['name'])
        out = [e.mk(('arg', names[i - 1]), self.fn['locals'][i]) for i in range(1, self.fn['argc'] + 1)]
        self.data = out[0]
        self.k = out[1].l if len(out) > 1 else ZERO
        self.m = out[2].l if len(out) > 2 and isinstance(out[2], I) else self.k
        self.arg = [None, out[2] if len(out) > 2 else None]
        self.in_range = out[2] if self.root == 'u_update' else None
        return out

    def setup(self, st):
        # the positions are positions of the list, in order
        st.assume(('ge', self.data.hi - self.m))
        st.assume(('ge', self.m - self.k))
        if self.in_range is not None:
            r = self.e.expand(st, self.in_range)
            off, ln = self.range_of(st, r)
            st.assume(('ge', off + ln - self.k))
            st.assume(('ge', self.data.hi - off - ln))
        st.mon['i'], st.mon['depth'], st.mon['done'] = I(self.k), I(0), False

    def wellformed(self, st, cond):
        """The items of parsed data are in the order of the text."""
        if cond[0] != 'ge' or self.root != 'u_source':
            return False
        a, _ = self.item_range(st, self.k)
        b, n = self.item_range(st, self.m - 1)
        return cond[1] == b + n - a

    def range_of(self, st, r):
        """(offset, length) of a range."""
        e = self.e
        out = {}
        for j, (n, ty) in enumerate(self.p.types[r.ty]['variants'][0]['fields']):
            if n in ('offset', 'length'):
                out[n] = e.proj(st, r, (('f', j, ty),)).l
        return out['offset'], out['length']

    # --- skipping -----------------------------------------------------------------------------
    def advance(self, st):
        """Follows the items whose kind is known."""
        m = st.mon
        n = 0
        while n < 60 and not m['done'] and self.ignore:
            i = m['i'].l
            if not st.holds_ge(self.data.hi, i + 1):
                return
            d = self.ifield(self.item(st, i), st, 'data')
            var = st.facts.var.get(d.t)
            if var is None:
                return
            kind = self.p.types[d.ty]['variants'][var]['name']
            depth = m['depth'].l
            if kind == 'StartNode':
                depth = depth + 1
            elif kind == 'EndNode':
                if st.ge(depth, lin(1)):
                    depth = depth - 1
            m['i'], m['depth'] = I(i + 1), I(depth)
            if st.truth(B(('eq', depth))):
                m['done'] = True
            n += 1

    def at_head(self, st):
        if self.ignore:
            self.advance(st)
            forget_items(st, self.data, st.mon['i'].l)

    # --- results ------------------------------------------------------------------------------
    def is_range(self, st, r, off, ln, R):
        a, b = self.range_of(st, r)
        self.need_eq(st, PID, R, a, off, 'the range starts at item %r' % (a,))
        self.need_eq(st, PID, R, b, ln, 'the range has length %r' % (b,))

    def returned(self, st, v):
        e = self.e
        left = self.data.hi - self.k
        if self.root in ('u_len', 'u_new_len'):
            self.need_eq(st, PID, 'a cursor tells how many items are left', v, left, 'tells %r' % (v,))
        elif self.root == 'u_update':
            off, ln = self.range_of(st, self.in_range)
            R = 'an update moves the cursor to the end of the range'
            self.need_eq(st, PID, R, v.f[0], self.data.hi - off - ln, 'leaves %r items' % (v.f[0],))
            self.is_range(st, v.f[1], ZERO, off + ln, R)
        elif self.root == 'u_subtract':
            self.is_range(st, v, self.k, self.m - self.k, 'the difference of two cursors covers the items between them')
        elif self.root == 'u_source':
            R = 'the source of the items between two cursors reaches from the start of the first to the end of the last'
            some = e.variant(st, v) == 1
            if st.truth(B(('eq', self.m - self.k))):
                self.need(st, PID, 'items that are not there have no source', not some, 'finds a source')
                return
            if self.need(st, PID, R, some, 'finds no source'):
                r = e.proj(st, v, (('v', 1), ('f', 0, self.p.types[v.ty]['variants'][1]['fields'][0][1])))
                a, _ = self.item_range(st, self.k)
                b, n = self.item_range(st, self.m - 1)
                self.is_range(st, r, a, b + n - a, R)
        elif self.ignore:
            R = 'skipping covers the next item, or its node to the end of it, or what is left'
            self.advance(st)
            m = st.mon
            if not m['done']:
                self.need(st, PID, R, ('ge', m['i'].l - self.data.hi), 'stops at item %r' % (m['i'].l,))
            self.is_range(st, v, self.k, m['i'].l - self.k, R)
        else:
            self.read(st, v)

    def read(self, st, v):
        e = self.e
        ok = e.variant(st, v) == 0
        if st.truth(B(('eq', self.data.hi - self.k))):
            self.need(st, PID, 'reading past the end fails', not ok, 'succeeds without an item')
            return
        mt = self.matches(st, self.k)
        if not ok:
            R = 'an item of the kind and name asked for is read'
            self.need(st, PID, R, mt is False, 'fails on an item that matches' if mt else 'fails without comparing the item')
            return
        R = 'reading succeeds only on an item of the kind and name asked for'
        if not self.need(st, PID, R, mt is True, 'succeeds on an item that %s' % ('does not match' if mt is False else 'was not compared')):
            return
        ty = self.p.types[v.ty]['variants'][0]['fields'][0][1]
        got = e.proj(st, v, (('v', 0), ('f', 0, ty)))
        R = 'a read item is returned with the range of the one item'
        if self.kind in ('Bool', 'F64', 'String'):
            x = self.item(st, self.k)
            vi = st.facts.var[self.ifield(x, st, 'data').t]
            want = self.payload(st, x, vi, 1)
            rng, val = got.f if isinstance(got, A) else e.expand(st, got).f
            if self.kind == 'String':
                same = self.text(st, val) == self.text(st, want)
            elif self.kind == 'Bool':
                a, b = [y.c if y.c in (True, False) else st.facts.decide(y.c) for y in (val, want)]
                same = val == want or a is not None and a == b
            else:
                same = val == want
            self.need(st, PID, R, same, 'returns %r' % (val,))
            got = rng
        self.is_range(st, got, self.k, lin(1), R)


def parts(prog):
    return sorted(r for r in prog.roots if r.startswith('u_'))


def run_cursor(prog, root, time_limit=60):
    mon = CursorMonitor(prog, root)
    eng = Engine(prog, Natives(readtoken.install(prog)), hooks=[mon], monitor=mon, time_limit=time_limit)
    eng.track_panics = Engine.PANICS
    eng.track_ends = Engine.ENDS
    mon.e = eng
    eng.run([eng.start(prog.roots[root], mon.args(), mon.setup)])
    return eng, mon


if __name__ == '__main__':
    import sys, time
    from mir import Program
    sys.setrecursionlimit(20000)
    if len(sys.argv) > 2 and sys.argv[2].startswith('-u'):
        Engine.UNROLL = int(sys.argv.pop(2)[2:])
    p = Program(sys.argv[1])
    for r in sys.argv[2:] or parts(p):
        t0 = time.time()
        eng, mon = run_cursor(p, r)
        print('==', r, eng.blocks_run, eng.paths, len(eng.returned), eng.incomplete, eng.unknown, '%.1fs' % (time.time() - t0))
        for k, s in sorted(mon.book.d.items()):
            print('   ', k[1:], s['ok'], s['bad'], s['open'], (s['ex'] or (s['why'],))[0])
