"""The short forms of the library: each is one use of the long form it stands for, and hands on what that
returns. The long forms are named unknowns here; other properties say what they do."""
import re
from dom import *
from interp import Engine, Dead
from oblig import Monitor
from stdmodel import Natives, as_str, C
import readtoken

PID = 'C28'
LAZY = ('s', 'lazy')


class WrapMonitor(Monitor):
    def __init__(self, prog, root):
        Monitor.__init__(self, prog)
        self.root, self.where = root, {'r_load': 'load_syntax_data', 'r_json_print': 'json::print'}.get(root, root[2:])
        self.fn = prog.fns[prog.roots[root]]
        self.names = {'r_syntax': ['text'], 'r_syntax_errstr': ['text'], 'r_load': ['syntax_path', 'data_path'], 'r_stderr_unwrap': ['text', 'result'],
                      'r_json_print': ['data']}.get(root, ['rules', 'text', 'tokens', 'indent'])

    def args(self):
        e = self.e
        self.arg = [e.mk(('arg', self.names[i - 1]), self.fn['locals'][i]) for i in range(1, self.fn['argc'] + 1)]
        return self.arg

    def setup(self, st):
        self.list0 = self.at(st, self.arg[2]) if len(getattr(self, 'arg', ())) > 2 else None
        st.mon['ev'] = ()
        st.mon['n'] = 0

    def at(self, st, v):
        """The value behind references."""
        n = 0
        while isinstance(v, P) and n < 6:
            v = self.e.read(st, v.cell, v.path)
            n += 1
        return v

    def note(self, st, *ev):
        st.mon['ev'] = st.mon['ev'] + (ev,)
        st.mon['n'] += 1

    def result(self, e, st, rty, ok, err, can_fail=True):
        """Forks over the two outcomes: (value, succeeded)."""
        vs = self.p.types[rty]['variants']
        if can_fail and e.choose(st, 2) == 1:
            return A(rty, 1, (err(vs[1]['fields'][0][1]),)), False
        return A(rty, 0, (ok(vs[0]['fields'][0][1]),)), True

    def text_of(self, c, v):
        s = as_str(c, v)
        return (s.t, s.lo, s.hi)

    # --- the long forms ------------------------------------------------------------------------
    def call(self, e, st, fr, f, fid, args, rty, span):
        d = f['def']
        c = C(e, st, fr, f, args, rty, span)
        n = st.mon['n']
        unit = lambda ty: A(None, 0, ())
        if d == 'piston_meta::parse_with_indent' and self.root != 'r_parse_with_indent':
            v, ok = self.result(e, st, rty, unit, lambda ty: e.mk(('error', n), ty))
            self.note(st, 'parse', self.at(st, args[0]), self.text_of(c, args[1]), args[2], self.at(st, args[3]), self.vec_len(st, args[2]), ok, n, self.at(st, args[2]))
            c.put(args[2], S(('parsed', n), self.type_behind(f, 3)))
            return v
        if d == 'piston_meta::bootstrap::rules':
            return S(('builtin',), rty)
        if d == 'piston_meta::Syntax::optimize':
            x = args[0]
            return S(('optimized', x.t if isinstance(x, S) else x), rty)
        if d.startswith('lazy_static::lazy::Lazy') and d.endswith('::get') or d in ('std::sync::LazyLock::<T, F>::force', 'std::sync::OnceLock::<T>::get_or_init'):
            v = self.constant(f, args)
            if v is None:
                return None
            st.store[LAZY] = v
            return P(LAZY)
        if d == 'piston_meta::bootstrap::convert':
            v, ok = self.result(e, st, rty, lambda ty: S(('converted', n), ty), unit)
            data = args[0]
            base = self.at(st, P(data.cell, data.path)) if isinstance(data, SL) else None
            if isinstance(base, S) and not (st.holds_eq(data.lo, ZERO) and st.holds_eq(data.hi, atom(('len', base.t)))):
                base = None
            self.note(st, 'convert', base, self.vec_len(st, args[1]), ok, n)
            c.put(args[1], S(('ignored', n), self.type_behind(f, 2)))
            return v
        if d == 'piston_meta::syntax' and self.root != 'r_syntax':
            v, ok = self.result(e, st, rty, lambda ty: S(('syntax', n), ty), lambda ty: e.mk(('error', n), ty))
            self.note(st, 'syntax', self.text_of(c, args[0]), ok, n)
            return v
        if d.startswith('piston_meta::ParseErrorHandler'):
            if d.endswith('::new'):
                return S(('handler', self.text_of(c, args[0])), rty)
            h = self.at(st, args[0])
            if d.endswith('::error'):
                self.note(st, 'report', 'stderr', h.t[1], args[1])
                return A(None, 0, ())
            if d.endswith('::write') and isinstance(args[1], P):
                mem = 'Vec<u8>' in f['name']
                v, ok = self.result(e, st, rty, unit, lambda ty: e.mk(('ioerror',), ty), can_fail=not mem)
                if mem:
                    fresh = st.holds_eq(self.vec_len(st, args[1]), ZERO)
                    c.put(args[1], S(('report' if fresh else 'appended', h.t[1], args[2]), self.type_behind(f, 2)))
                else:
                    self.note(st, 'report', 'stderr' if 'Stderr' in f['name'] else '?', h.t[1], args[2])
                return v
        if d == 'piston_meta::json::write':
            v, ok = self.result(e, st, rty, unit, lambda ty: e.mk(('ioerror',), ty))
            self.note(st, 'json', 'stdout' if 'Stdout' in f['name'] else '?', args[1], ok)
            return v
        if d == 'std::fs::File::open':
            v, ok = self.result(e, st, rty, lambda ty: S(('file', self.text_of(c, args[0])), ty), lambda ty: e.mk(('ioerror',), ty))
            return v
        if d in ('<std::fs::File as std::io::Read>::read_to_string', 'std::fs::read_to_string', 'std::io::read_to_string'):
            path = self.text_of(c, args[0]) if d == 'std::fs::read_to_string' else self.at(st, args[0]).t[1]
            if d[0] != '<':
                return self.result(e, st, rty, lambda ty: S(('content', path), ty), lambda ty: e.mk(('ioerror',), ty))[0]
            v, ok = self.result(e, st, rty, lambda ty: I(atom(('len', ('content', path)))), lambda ty: e.mk(('ioerror',), ty))
            old = as_str(c, args[1])
            if ok and st.holds_eq(old.hi, old.lo):
                c.put(args[1], S(('content', path), self.type_behind(f, 2)))
            else:
                c.put(args[1], S(('part', n), self.type_behind(f, 2)))
            return v
        how = re.match(r'(?:std::vec::Vec|alloc::vec::Vec|core::slice|std::slice|alloc::slice|slice).*::(dedup|dedup_by|dedup_by_key|retain|retain_mut|reverse|sort|sort_by|sort_by_key|rotate_left|rotate_right)$', d)
        if how and len(self.arg) > 2:
            # not what the list was before
            x = args[0]
            while isinstance(x, P) and isinstance(self.e.read(st, x.cell, x.path), P):
                x = self.e.read(st, x.cell, x.path)
            if isinstance(x, SL):
                x = P(x.cell, x.path)
            if isinstance(x, P) and x == self.arg[2]:
                v = self.at(st, x)
                if isinstance(v, S):
                    c.put(x, S((how.group(1), v.t), v.ty))
                    return A(None, 0, ())
        if d.startswith('std::rt::begin_panic') or d.startswith('core::panicking::') or d.endswith('unwrap_failed'):
            self.panics(st)
        return None

    def type_behind(self, f, i):
        t = self.p.types[f['locals'][i]] if 'locals' in f else None
        if t is not None and t['k'] == 'ref':
            return t['to']
        return self.p.find_type('alloc::string::String') if i == 2 else None

    def vec_len(self, st, p):
        v = self.at(st, p)
        if isinstance(v, (VV, VO)):
            return v.n
        return atom(('len', v.t)) if isinstance(v, S) else ZERO

    def constant(self, f, args):
        """The value of a function without arguments."""
        fid = None
        for a in args[1:]:
            ty = getattr(a, 'ty', None)
            if ty is not None and 'fn' in self.p.types[ty]:
                fid = self.p.types[ty]['fn']
        if fid is None:
            nm = f['name'].split('{', 1)[-1].rstrip('>').rstrip('}')
            hit = [g['id'] for g in (self.p.fns.values() if isinstance(self.p.fns, dict) else self.p.fns) if g['name'] == nm]
            fid = hit[0] if hit else None
        if fid is None:
            return None
        got = []

        class Once(WrapMonitor):
            def returned(s, st, v):
                got.append(v)

        m = Once(self.p, self.root)
        eng = Engine(self.p, Natives(readtoken.install(self.p)), hooks=[m], monitor=m, time_limit=20)
        m.e = eng
        eng.run([eng.start(fid, [], m.setup)])
        if len(got) != 1 or eng.incomplete:
            return None
        self.e.fns_seen |= eng.fns_seen
        return got[0]

    # --- expectations ---------------------------------------------------------------------------
    def panics(self, st):
        ev = st.mon['ev']
        if self.root in ('r_stderr_unwrap', 'r_load'):
            failed = self.root == 'r_stderr_unwrap' or any(x[0] in ('parse', 'syntax') and x[-2] is False for x in ev)
            if not failed:
                return          # a file that can not be read
            R = 'before it panics, the failure is reported to standard error'
            reps = [x for x in ev if x[0] == 'report']
            if self.need(st, PID, R, len(reps) == 1 and reps[0][1] == 'stderr', 'reports %d times' % len(reps)):
                if self.root == 'r_stderr_unwrap':
                    want, err = self.plain(self.arg[0]), None
                else:
                    x = [x for x in ev if x[0] in ('parse', 'syntax') and x[-2] is False][0]
                    want, err = x[1] if x[0] == 'syntax' else x[2], ('error', x[-1])
                self.need(st, PID, R, reps[0][2] == want, 'the report is about another text')
                if err:
                    self.need(st, PID, R, self.is_error(st, reps[0][3], err), 'another failure is reported')

    def is_error(self, st, v, term):
        """v is the error named by the term, maybe taken apart."""
        n = 0
        while isinstance(v, P) and n < 6:
            v = self.e.read(st, v.cell, v.path)
            n += 1
        if isinstance(v, S):
            return v.t == term
        if not isinstance(v, A):
            return term_in(v, term)
        return self.alike(st, v, self.e.expand(st, S(term, v.ty)))

    def alike(self, st, v, w):
        """Are these the same, whatever has been taken apart?"""
        if v == w:
            return True
        if isinstance(v, I) and isinstance(w, I):
            return st.holds_eq(v.l, w.l)
        if isinstance(v, A) and isinstance(w, S):
            w = self.e.expand(st, w) if self.e.variant(st, w) in (None, v.v) else w
        elif isinstance(v, S) and isinstance(w, A):
            v = self.e.expand(st, v)
        if isinstance(v, A) and isinstance(w, A):
            return v.v == w.v and len(v.f) == len(w.f) and all(self.alike(st, x, y) for x, y in zip(v.f, w.f))
        return False

    def plain(self, v):
        return (v.t, v.lo, v.hi)

    def failure(self, st, v, n, text=None):
        """v is the failure of step n, or the report of it."""
        ok = self.e.variant(st, v) == 0
        R = 'a failure is handed on'
        if not self.need(st, PID, R, not ok, 'succeeds after a failure'):
            return
        x = v.f[0]
        if text is None:
            for pid in (PID, 'C12'):
                self.need(st, pid, R, self.is_error(st, x, ('error', n)), 'returns %r' % (x,))
            return
        R = 'a failure is returned as its report on the text'
        good = isinstance(x, S) and x.t[0] == 'utf8of' and isinstance(x.t[1], S) and x.t[1].t[0] == 'report'
        if self.need(st, PID, R, good, 'returns %r' % (x,)):
            rep = x.t[1].t
            for pid in (PID, 'C22'):
                self.need(st, pid, R, rep[1] == text, 'the report is about another text')
            for pid in (PID, 'C12', 'C22'):
                self.need(st, pid, R, self.is_error(st, rep[2], ('error', n)), 'another failure is reported')

    def success(self, st, v):
        return self.need(st, PID, 'a success is handed on', self.e.variant(st, v) == 0, 'fails after a success')

    def returned(self, st, v):
        e = self.e
        getattr(self, self.root)(st, v, st.mon['ev'])

    def one(self, st, ev, kinds, R):
        return self.need(st, PID, R, tuple(x[0] for x in ev) == kinds, 'does %s' % ', '.join(x[0] for x in ev))

    def parsing(self, st, v, ev, indent, text):
        R = 'the text is parsed once, with the rules and settings given'
        if not self.one(st, ev, ('parse',), R):
            return
        _, rules, txt, tokens, ind, _, ok, n, _ = ev[0]
        self.need(st, PID, R, rules == self.at(st, self.arg[0]), 'parses with other rules')
        self.need(st, PID, R, txt == self.plain(self.arg[1]), 'parses another text')
        self.need(st, PID, R, tokens == self.arg[2], 'writes to another place')
        same = ind == indent or isinstance(indent, A) and isinstance(ind, S) and e_same(self.e, st, ind, indent)
        self.need(st, PID, R, same, 'parses with the settings %r' % (ind,))
        self.need(st, 'C13', 'parsing starts with the given indentation', same, 'starts with the settings %r' % (ind,))
        self.parsed(st, v, ev[0], self.arg[1])
        for pid, R in (('C05', 'the data of the caller is handed to the parse as it was'), ('C02', 'the data is left as the parse left it')):
            self.need(st, pid, R, tokens == self.arg[2], 'parses into another place')
        self.need(st, 'C05', 'the data of the caller is handed to the parse as it was', ev[0][8] == self.list0, 'the parse starts with %r' % (ev[0][8],))
        after = self.at(st, self.arg[2])
        for pid in ('C02', 'C05'):
            self.need(st, pid, 'the data is left as the parse left it', isinstance(after, S) and after.t == ('parsed', n), 'leaves %r' % (after,))
        if ok:
            self.success(st, v)
        else:
            self.failure(st, v, n, text)

    def parsed(self, st, v, ev, arg):
        """The outcome depends on a parse of the whole text."""
        R = 'success only if the whole text was parsed'
        self.need(st, 'C01', R, ev[2] == self.plain(arg), 'parses another text')
        self.need(st, 'C01', R, ev[6] or self.e.variant(st, v) == 1, 'succeeds after a failure')

    def default_indent(self):
        got = []
        f = self.p.fns[self.p.roots['r_indent_default']]

        class Once(Monitor):
            def returned(s, st, v):
                got.append(v)

            def call(s, *a):
                return None
        m = Once(self.p)
        eng = Engine(self.p, Natives(readtoken.install(self.p)), hooks=[m], monitor=m, time_limit=20)
        m.e = eng
        eng.run([eng.start(f['id'], [], lambda st: None)])
        return got[0] if len(got) == 1 else None

    def r_parse(self, st, v, ev):
        self.parsing(st, v, ev, self.default_indent(), None)

    def r_parse_errstr(self, st, v, ev):
        self.parsing(st, v, ev, self.default_indent(), self.plain(self.arg[1]))

    def r_parse_errstr_with_indent(self, st, v, ev):
        self.parsing(st, v, ev, self.at(st, self.arg[3]), self.plain(self.arg[1]))

    def r_syntax_errstr(self, st, v, ev):
        R = 'the syntax is read once'
        if not self.one(st, ev, ('syntax',), R):
            return
        _, txt, ok, n = ev[0]
        self.need(st, PID, R, txt == self.plain(self.arg[0]), 'reads another text')
        if ok:
            if self.success(st, v):
                self.need(st, PID, 'a success is handed on', v.f[0] == S(('syntax', n), v.f[0].ty), 'returns %r' % (v.f[0],))
        else:
            self.failure(st, v, n, self.plain(self.arg[0]))

    def r_syntax(self, st, v, ev):
        e = self.e
        R = 'a syntax is parsed with the built-in grammar and then converted'
        if not ev or not self.need(st, PID, R, ev[0][0] == 'parse', 'starts with something else'):
            return self.need(st, PID, R, False, 'parses nothing')
        _, rules, txt, tokens, ind, n0, ok, n, _ = ev[0]
        while isinstance(rules, S) and rules.t[0] == 'optimized':
            rules = S(rules.t[1], rules.ty)
        self.need(st, PID, R, isinstance(rules, S) and rules.t == ('builtin',), 'parses with %r' % (rules,))
        self.need(st, PID, R, txt == self.plain(self.arg[0]), 'parses another text')
        self.parsed(st, v, ev[0], self.arg[0])
        self.need(st, 'C16', 'a syntax is read with the built-in grammar', isinstance(rules, S) and rules.t == ('builtin',), 'parses with %r' % (rules,))
        self.need(st, 'C16', 'a syntax is read with the built-in grammar', txt == self.plain(self.arg[0]), 'parses another text')
        self.need(st, PID, R, ind == self.default_indent(), 'parses with the settings %r' % (ind,))
        self.need(st, PID, R, ('eq', n0), 'parses into data that is not empty')
        if not ok:
            return self.failure(st, v, n)
        if not self.need(st, PID, R, len(ev) == 2 and ev[1][0] == 'convert', 'does %s' % ', '.join(x[0] for x in ev)):
            return
        _, data, i0, cok, cn = ev[1]
        for pid in (PID, 'C19'):
            self.need(st, pid, R, isinstance(data, S) and data.t == ('parsed', n), 'converts %r' % (data,))
        self.need(st, PID, R, ('eq', i0), 'starts with items ignored')
        good = e.variant(st, v) == 0
        if not cok:
            for pid in (PID, 'C19'):
                self.need(st, pid, 'a syntax that can not be converted is refused', not good, 'succeeds without a syntax')
            return
        none = st.facts.decide(('eq', atom(('len', ('ignored', cn)))))
        R = 'a syntax with items that nothing was made of is refused'
        if good:
            for pid in (PID, 'C19'):
                self.need(st, pid, R, none is True, 'succeeds without looking at the items ignored')
            x = v.f[0]
            while isinstance(x, S) and x.t[0] == 'optimized':
                x = S(x.t[1], x.ty)
            self.need(st, PID, 'the syntax returned is the one converted', isinstance(x, S) and x.t == ('converted', cn), 'returns %r' % (x,))
        else:
            self.need(st, PID, 'a syntax that was converted completely is returned', none is False, 'fails though nothing was ignored')

    def r_stderr_unwrap(self, st, v, ev):
        res = self.arg[1]
        R = 'a result that is a failure does not come back'
        if self.need(st, PID, R, e_variant(self.e, st, res) == 0, 'returns after a failure'):
            want = self.e.proj(st, res, (('v', 0), ('f', 0, self.p.types[res.ty]['variants'][0]['fields'][0][1])))
            self.need(st, PID, 'the value of a success is handed on', v == want, 'returns %r' % (v,))
            self.need(st, PID, 'the value of a success is handed on', not ev, 'reports something')

    def r_load(self, st, v, ev):
        a, b = [self.plain(x) for x in self.arg]
        R = 'the data file is parsed with the syntax file'
        if not self.one(st, ev, ('syntax', 'parse'), R):
            return
        whole = lambda p: (('content', p), ZERO, atom(('len', ('content', p))))
        _, txt, ok, n = ev[0]
        self.need(st, PID, R, ok and txt == whole(a), 'reads the syntax from %r' % (txt,))
        _, rules, txt, tokens, ind, n0, ok, n2, _ = ev[1]
        while isinstance(rules, S) and rules.t[0] == 'optimized':
            rules = S(rules.t[1], rules.ty)
        self.need(st, PID, R, isinstance(rules, S) and rules.t == ('syntax', n), 'parses with %r' % (rules,))
        self.need(st, PID, R, txt == whole(b), 'parses %r' % (txt,))
        self.need(st, 'C01', 'success only if the whole text was parsed', ok and txt == whole(b), 'parses %r' % (txt,))
        self.need(st, PID, R, ind == self.default_indent(), 'parses with the settings %r' % (ind,))
        self.need(st, PID, R, ('eq', n0), 'parses into data that is not empty')
        self.need(st, PID, 'a failure to parse does not come back', ok, 'returns after a failure')
        self.need(st, PID, 'the data parsed is returned', isinstance(v, S) and v.t == ('parsed', n2), 'returns %r' % (v,))

    def r_json_print(self, st, v, ev):
        R = 'the data is written to standard output once'
        if self.one(st, ev, ('json',), R):
            self.need(st, PID, R, ev[0][1] == 'stdout' and ev[0][2] == self.arg[0], 'writes %r to %s' % (ev[0][2], ev[0][1]))
            self.need(st, PID, 'a failure to write does not come back', ev[0][3], 'returns after a failure')


def e_variant(e, st, v):
    return e.variant(st, v)


def e_same(e, st, a, b):
    return e.expand(st, a) == b


def flat(x):
    out = ()
    if isinstance(x, tuple):
        out += (x,)
        for y in x:
            out += flat(y)
    return out


def term_in(v, term):
    """All the parts of v belong to the term."""
    if isinstance(v, A):
        return bool(v.f) and all(term_in(x, term) for x in v.f)
    if isinstance(v, S):
        return term in flat(v.t)
    if isinstance(v, I):
        return any(term in flat(a) for a, _ in v.l.t)
    return False


ROOTS = ['r_parse', 'r_parse_errstr', 'r_parse_errstr_with_indent', 'r_syntax', 'r_syntax_errstr', 'r_stderr_unwrap', 'r_load', 'r_json_print']


def run_wrap(prog, root, time_limit=60):
    mon = WrapMonitor(prog, root)
    eng = Engine(prog, Natives(readtoken.install(prog)), hooks=[mon], monitor=mon, time_limit=time_limit)
    eng.track_panics = Engine.PANICS
    eng.track_ends = Engine.ENDS
    mon.e = eng
    eng.run([eng.start(prog.roots[root], mon.args(), mon.setup)])
    return eng, mon


if __name__ == '__main__':
    import sys, time
    from mir import Program
    sys.setrecursionlimit(20000)
    if len(sys.argv) > 2 and sys.argv[2].startswith('-u'):
        Engine.UNROLL = int(sys.argv.pop(2)[2:])
    p = Program(sys.argv[1])
    for r in sys.argv[2:] or ROOTS:
        t0 = time.time()
        eng, mon = run_wrap(p, r)
        print('==', r, eng.blocks_run, eng.paths, len(eng.returned), eng.incomplete, eng.unknown, '%.1fs' % (time.time() - t0))
        for k, s in sorted(mon.book.d.items()):
            print('   ', k[1:], s['ok'], s['bad'], s['open'], (s['ex'] or (s['why'],))[0])
