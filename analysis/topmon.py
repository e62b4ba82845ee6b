"""Follows the whole-text entry points: what they hand to the last rule of the syntax, and what they
make of its outcome."""
from dom import *
from interp import Engine, GiveUp
from oblig import Monitor
from stdmodel import Natives
from parsemon import ParseTypes, TOK, IND
import readtoken


class TopMonitor(Monitor):
    def __init__(self, prog, root):
        Monitor.__init__(self, prog)
        self.t = ParseTypes(prog)
        self.root = root
        self.where = root[2:] if root.startswith('r_') else root
        fn = prog.fns[prog.roots[root]]
        self.argty = [fn['locals'][i] for i in range(1, fn['argc'] + 1)]

    def args(self):
        t = self.t
        out = []
        for ty in self.argty:
            k = self.p.types[ty]
            to = k.get('to')
            if k['k'] == 'ref' and to == t.tokens:
                out.append(P(TOK))
            elif k['k'] == 'ref' and to == t.indent:
                out.append(P(IND))
            elif k['k'] == 'ref' and self.p.types[to]['k'] == 'str':
                out.append(STR(('arg', 'text'), ZERO, atom(('len', ('arg', 'text')))))
            else:
                out.append(self.e.mk(('arg', 'syntax'), ty))
                self.syntax_ty = to
        return out

    def setup(self, st):
        t = self.t
        self.n0, self.n = atom(('arg', 'tokens.len')), atom(('len', ('arg', 'text')))
        st.store[TOK] = VO(t.tokens, 'tok', self.n0)
        st.store[IND] = self.e.expand(st, S(('arg', 'indent'), t.indent))
        self.ind0 = st.store[IND]
        m = st.mon
        m['calls'] = I(0)
        m['valid'] = I(self.n0)
        m['read'] = I(0)
        m['st'] = I(0)
        m['out'] = 'none'
        m['err'] = None

    def rules_vec(self, st):
        i = self.t.fld(self.syntax_ty, 'rules')
        ty = self.p.types[self.syntax_ty]['variants'][0]['fields'][i][1]
        return ('f', ('*', ('arg', 'syntax')), 0, i), ty

    def vec_push(self, e, st, ptr, v, x):
        if ptr.cell == TOK:
            self.fail(st, 'C02', 'only rules add data', 'adds data')

    def vec_truncate(self, e, st, ptr, v, mm):
        if ptr.cell != TOK:
            return
        m = st.mon
        self.need(st, 'C05', 'data that was there before the call is kept', ('ge', mm - self.n0),
                  'truncates to %r, below the %r items the caller had' % (mm, self.n0))
        if not st.holds_ge(mm, m['valid'].l) and st.ge(m['valid'].l, mm):
            m['valid'] = I(mm)

    def written(self, st, cell, path):
        if cell == TOK and not path:
            pass

    def call(self, e, st, fr, f, fid, args, rty, span):
        if f['name'] != 'piston_meta::Rule::parse':
            return None
        m, t = st.mon, self.t
        x = args[0]
        for _ in range(3):
            if isinstance(x, P):
                x = e.read(st, x.cell, x.path)
        vt, _ = self.rules_vec(st)
        count = atom(('len', vt))
        st.note('the first rule is tried')
        ok = isinstance(x, S) and x.t[0] == 'e' and x.t[1] == vt
        if self.need(st, 'C01', 'parsing starts with the last rule', ok, 'starts with %r' % (x,)):
            self.need_eq(st, 'C01', 'parsing starts with the last rule', x.t[2], count - 1, 'starts with rule %r' % (x.t[2],))
        self.need_eq(st, 'C01', 'the rule is tried once', m['calls'].l, 0)
        m['calls'] = I(m['calls'].l + 1)
        if not (isinstance(args[1], P) and args[1].cell == TOK):
            raise GiveUp('the rule writes to another list')
        s = e.read(st, args[2].cell, args[2].path)
        if isinstance(s, S):
            s = e.expand(st, s)
        s = s.f[0].l
        self.need_eq(st, 'C05', 'new data goes after the data that was there', s, self.n0, 'starts at item %r' % (s,))
        rt = e.read(st, args[3].cell, args[3].path)
        src, off = rt.f[t.fld(t.rt, 'src')], rt.f[t.fld(t.rt, 'offset')].l
        if self.need(st, 'C01', 'the rule gets the whole text', isinstance(src, STR) and src.t == ('arg', 'text'), 'gets %r' % (src,)):
            self.need_eq(st, 'C01', 'the rule gets the whole text', src.lo, 0, 'text starts at %r' % (src.lo,))
            self.need_eq(st, 'C01', 'the rule gets the whole text', src.hi, self.n, 'text ends at %r' % (src.hi,))
        self.need_eq(st, 'C03', 'positions count from the start of the text', off, 0, 'starts at offset %r' % (off,))
        refs = args[4]
        good = False
        if isinstance(refs, SL):
            rv = e.read(st, refs.cell, refs.path)
            good = isinstance(rv, (S, VO, VV)) and (getattr(rv, 't', None) == vt or refs.cell == ('m', vt, self.rules_vec(st)[1])) \
                and st.holds_eq(refs.lo, 0) and st.holds_eq(refs.hi, count)
        self.need(st, 'C15', 'references are looked up in the list of all rules', good, 'rule list %r' % (refs,))
        ind = e.read(st, args[5].cell, args[5].path)
        if isinstance(ind, S):
            ind = e.expand(st, ind)
        for (nm, _), a, b in zip(self.p.types[t.indent]['variants'][0]['fields'], ind.f, self.ind0.f):
            self.need_eq(st, 'C13', 'parsing starts with the given indentation', a, b, 'starts with %s = %r' % (nm, a)) \
                if isinstance(a, I) else self.need(st, 'C13', 'parsing starts with the given indentation', a == b, nm)
        tok = st.store[TOK]
        c = e.choose(st, 3)
        n2 = atom(e.fresh('len'))
        if c == 2:
            err = S(e.fresh('err'), t.err)
            st.assume(('ge', n2 - s))
            st.store[TOK] = VO(tok.ty, tok.tag, n2)
            m['out'], m['err'] = 'err', err
            return A(t.res, 1, [err])
        L, s2 = atom(e.fresh('length')), atom(e.fresh('accepted'))
        st.assume(('ge', self.n - L))
        st.assume(('ge', s2 - s))
        st.assume(('ge', n2 - s2))
        st.store[TOK] = VO(tok.ty, tok.tag, n2)
        m['valid'] = I(s2)
        m['read'], m['st'], m['out'] = I(L), I(s2), 'ok'
        if c == 1:
            err = S(e.fresh('err'), t.err)
            m['err'] = err
            opt = A(t.opt, 1, [err])
        else:
            opt = A(t.opt, 0, ())
        return A(t.res, 0, [A(t.tup, 0, [t.mkrange(off, L), A(t.state, 0, [I(s2)]), opt])])

    def err_end(self, err):
        t = self.t
        o, l = t.fld(t.err, 'offset'), t.fld(t.err, 'length')
        if isinstance(err, A):
            return err.f[o].l + err.f[l].l
        tys = self.p.types[t.err]['variants'][0]['fields']
        return self.e.mk(('f', err.t, 0, o), tys[o][1]).l + self.e.mk(('f', err.t, 0, l), tys[l][1]).l

    def returned(self, st, v):
        e, m, t = self.e, st.mon, self.t
        var = e.variant(st, v)
        if isinstance(v, S):
            v = e.expand(st, v)
        tok = st.store[TOK]
        called = not st.holds_eq(m['calls'].l, 0)
        vt, _ = self.rules_vec(st)
        if not called:
            self.need(st, 'C01', 'a syntax without rules is an error', var == 1, 'succeeds without trying a rule')
            self.need_eq(st, 'C01', 'only a syntax without rules is not tried', atom(('len', vt)), 0, 'returns without trying a rule')
            return
        self.need(st, 'C05', 'data that was there before the call is kept', ('ge', tok.n - self.n0), 'leaves %r items' % (tok.n,))
        self.need(st, 'C05', 'data that was there before the call is kept', ('ge', m['valid'].l - self.n0), 'leaves %r items' % (tok.n,))
        if var == 0:
            if not self.need(st, 'C01', 'success needs the rule to succeed', m['out'] == 'ok', 'succeeds although the rule failed'):
                return
            self.need_eq(st, 'C01', 'success means the whole text was read', m['read'].l, self.n,
                         'succeeds after reading %r bytes of %r' % (m['read'].l, self.n))
            self.need_eq(st, 'C02', 'the result holds exactly the accepted data', tok.n, m['st'].l,
                         'leaves %r items where %r were accepted' % (tok.n, m['st'].l))
            self.need(st, 'C02', 'the result holds exactly the accepted data', ('ge', m['valid'].l - m['st'].l), 'lost accepted data')
            return
        err = v.f[0]
        end = self.err_end(err)
        if m['out'] == 'ok':
            self.need(st, 'C01', 'reading the whole text is a success', ('ge', self.n - m['read'].l - 1),
                      'fails after reading %r of %r' % (m['read'].l, self.n))
            self.need(st, 'C12', 'the deepest error is reported', ('ge', end - m['read'].l), 'reports an error ending at %r' % (end,))
        if m['err'] is not None:
            self.need(st, 'C12', 'the deepest error is reported', ('ge', end - self.err_end(m['err'])), 'reports an error ending at %r' % (end,))


def run_top(prog, root, time_limit=100):
    mon = TopMonitor(prog, root)
    eng = Engine(prog, Natives(readtoken.install(prog)), hooks=[mon], monitor=mon, time_limit=time_limit)
    eng.track_panics = Engine.PANICS
    eng.track_ends = Engine.ENDS
    mon.e = eng
    if root != 'r_parse_with_indent':
        # entry points that choose the indentation themselves are compared with the default elsewhere
        pass
    st = eng.start(prog.roots[root], mon.args(), mon.setup)
    eng.run([st])
    return eng, mon


if __name__ == '__main__':
    import sys
    from mir import Program
    p = Program(sys.argv[1])
    for r in sys.argv[2:]:
        eng, mon = run_top(p, r)
        print('==', r, eng.blocks_run, eng.paths, len(eng.returned), eng.incomplete, eng.unknown)
        for k, s in sorted(mon.book.d.items()):
            print('   ', k, s['ok'], s['bad'], s['open'], (s['ex'] or (s['why'],))[0])
