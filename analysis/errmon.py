"""What an error report says: a reader of the report follows what is written and compares it with the lines
of the text and the place of the error."""
from dom import *
from interp import Engine, Dead
from oblig import Monitor, forget_items
from stdmodel import Natives, is_lit, lit_of, next_char, count_to, char_pos
import readtoken
from parsemon import strip
from normal import substitute

OUT = ('s', 'out')
SELF = ('s', 'handler')
PID = 'C22'
LINES = 2               # lines of the text in the exact pass
EXACT = 2               # rounds of each loop there
THIRD = ['third', 'third after a blank line']   # only the place of the third of three lines
KINDS = ['from %s to %s' % (a, b) for a in '0s' for b in ('e', '100')]
R_ORDER = 'the report shows the message, then every line the place touches, in order'
R_NUM = 'a line is shown with its number and the column where the place starts in it'
R_TEXT = 'a line is shown from its start, or from 50 characters before the column when that is past 75, for at most 100 characters'
R_PTR = 'the first line is followed by a line that marks its column, with tabs kept'
R_PREV = 'when a token is missing, the lines right before are shown with their numbers'
R_FAIL = 'reporting fails exactly when the writer does'
R_ALL = 'no line that the place touches is left out'


class Shim:
    """What next_char needs."""
    def __init__(self, e, st):
        self.e, self.st = e, st


class ReportMonitor(Monitor):
    def __init__(self, prog, root, most, only, missing):
        Monitor.__init__(self, prog)
        self.most, self.only, self.missing = most, only, missing
        self.seen = {}
        self.root, self.where = root, 'ParseErrorHandler::' + root.replace('r_err_', '')
        self.fn = prog.fns[prog.roots[root]]
        self.msg = root == 'r_err_write_msg'
        self.hty = strip(prog, self.fn['locals'][1])

    def field(self, st, x, name):
        for j, (n, ty) in enumerate(self.p.types[x.ty]['variants'][0]['fields']):
            if n == name:
                return self.e.proj(st, x, (('f', j, ty),))

    # --- what it is given -------------------------------------------------------------------
    def args(self):
        e = self.e
        out = [P(SELF), P(OUT), e.mk(('arg', 'range'), self.fn['locals'][3])]
        if self.msg:
            out.append(e.mk(('arg', 'msg'), self.fn['locals'][4]))
        self.arg = out
        return out

    def setup(self, st):
        e, m = self.e, st.mon
        st.store[OUT] = S(('arg', 'out'), strip(self.p, self.fn['locals'][2]))
        self.old = S(('arg', 'handler'), self.hty)
        st.store[SELF] = e.expand(st, self.old)
        self.lines = self.field(st, st.store[SELF], 'lines')
        self.n = atom(('len', self.lines.t))
        r = self.arg[2]
        if not self.msg:
            self.error = self.field(st, r, 'data')
        self.off, self.len = self.field(st, r, 'offset').l, self.field(st, r, 'length').l
        if self.missing is not None:
            st.facts.var[self.error.t] = self.kinds().index(self.missing)
        if self.most:
            st.assume(('ge', lin(self.most) - self.n))
        if self.only in THIRD:
            # three lines, the second is (not) blank, the third is empty and the place is there
            lines = [self.line(st, i) for i in range(3)]
            st.assume(('eq', self.n - 3))
            st.assume(('eq', self.len))
            st.assume(('eq', self.off - lines[2][0]))
            for o, n, _ in lines[:2]:
                st.assume(('ge', self.off - o - n - 1))
            st.assume(('eq', lines[2][1]))
            t = lines[1][2]
            if self.only != THIRD[0]:
                st.assume(('eq', t.hi - t.lo))
                st.assume(('eq', lines[1][1]))
                t = lines[0][2]
            st.assume(('eq', lines[2][2].hi - lines[2][2].lo))
            st.assume(('ge', t.hi - t.lo - 1))
            st.assume(('np', ('ws', atom(('ch', t.t, t.lo)))))
        m['q'] = 'M\0L\n' if self.msg else 'LError \0E\0L\n'
        m['sec'], m['k'], m['p'], m['first'], m['failed'], m['num'] = 'head', I(0), I(0), True, False, 'none'
        m['pos'], m['s'], m['e'], m['j'], m['row'] = I(0), I(0), I(0), I(0), I(0)
        m['prev'] = m['sure'] = False

    # --- lines -------------------------------------------------------------------------------
    def item(self, st, i):
        return self.e.read(st, SELF, tuple(self.at) + (('i', lin(i)),))

    def line(self, st, i):
        """(offset, length, text) of a line of the handler."""
        e = self.e
        x = e.elem(st, self.lines, lin(i))
        ty = self.p.types[x.ty]['els']
        r = e.proj(st, x, (('f', 0, ty[0]),))
        t = e.proj(st, x, (('f', 1, ty[1]),))
        return self.field(st, r, 'offset').l, self.field(st, r, 'length').l, t

    def touched(self, st, i):
        o, n, _ = self.line(st, i)
        if st.mon['sure'] and lin(i) == st.mon['k'].l:
            return True
        a = st.facts.decide(('ge', self.off + self.len - o))
        b = st.facts.decide(('ge', o + n - self.off))
        if a is False or b is False:
            return False
        return True if a and b else None

    def advance(self, st):
        for _ in range(50):
            k = st.mon['k'].l
            if st.holds_ge(k, self.n) or self.touched(st, k) is not False:
                return
            st.mon['k'] = I(k + 1)
            st.mon['sure'], st.mon['num'] = False, 'none'

    def before_head(self, st):
        if not self.e.unroll:
            # the place of a character is a number like any other
            live = set()
            for v in list(st.store.values()) + list(st.mon.values()):
                if isinstance(v, (V, Lin)):
                    walk_atoms(v, live)
            for a in sorted((a for a in live if isinstance(a, tuple) and a[0] == 'at'), key=repr):
                n = atom(self.e.fresh('n'))
                d = atom(('C', a[1], atom(a))) - a[2]
                end = atom(('len', a[1]))
                st.facts.ge |= {d, -d, end - atom(a), atom(('C', a[1], end)) - a[2]}
                substitute(st, {a: n})

    def at_head(self, st):
        if st.mon['sec'] != 'head' and not st.mon['q']:
            self.advance(st)
            if not st.holds_ge(st.mon['k'].l, self.n) and self.touched(st, st.mon['k'].l):
                st.mon['sure'] = True
                if st.mon['num'] == 'none':
                    d = st.facts.decide(('ge', self.line(st, st.mon['k'].l)[0] - self.off))
                    st.mon['num'] = 'none' if d is None else 'start' if d else 'inside'
        if not self.e.unroll:
            keep = {st.mon['k'].l, st.mon['row'].l}
            forget_lines(st, self.lines.t, lambda i: i in keep or not st.holds_ge(st.mon['k'].l - 1, i))

    # --- what is written ----------------------------------------------------------------------
    def bad(self, st, rule, why):
        self.need(st, PID, rule, False, why)
        raise Dead('broken')

    def lost(self, st, rule, why):
        self.record(PID, rule, self.where, False, False, why, st.trail_list())
        raise Dead('lost')

    def must(self, st, rule, cond, why):
        c = c_norm(cond)
        d = c if c in (True, False) else st.facts.decide(c)
        if not self.e.unroll:
            self.seen.setdefault((rule, ' '.join(w for w in why.split() if w.isalpha())[:30]), []).append((c if c is False else None, why, st.trail_list()))
        if d is True:
            return self.ok(PID, rule)
        if d is False:
            # away from the exact pass this may be a state that nothing leads to
            self.record(PID, rule, self.where, False, bool(self.e.unroll), why, st.trail_list())
            raise Dead('broken')
        if not self.need(st, PID, rule, c, why):
            raise Dead('broken')

    def finish(self):
        """What differs by a number in every state there is."""
        for (rule, _), xs in self.seen.items():
            if all(x[0] is False for x in xs):
                self.record(PID, rule, self.where, False, True, *xs[0][1:])

    def emit_failed(self, e, st, target):
        if isinstance(target, P) and target.cell == OUT:
            st.mon['failed'] = True

    def emit(self, e, st, target, pieces):
        if not (isinstance(target, P) and target.cell == OUT):
            return
        if st.mon['failed']:
            self.bad(st, R_FAIL, 'writes on after a failure')
        for p in pieces:
            if isinstance(p, STR) and is_lit(p):
                for ch in lit_of(p):
                    self.char(st, ch)
            elif isinstance(p, IT) and p.kind == 'shown' and isinstance(p.f[0], I) and p.f[0].l.const is not None and self.step(st)[:1] not in ('N', ''):
                self.char(st, chr(p.f[0].l.const))
            else:
                self.piece(st, p)

    def step(self, st):
        return st.mon['q'].split('\0')[0]

    def next(self, st):
        q = st.mon['q'].split('\0')[1:]
        if q and q[0][:1] == 'T' or q and q[0][:1] == 'X':
            st.mon['pos'] = I(char_pos(self.text(st), st.mon['s'].l))
        st.mon['q'] = '\0'.join(q)
        if not q and st.mon['sec'] == 'head':
            st.mon['sec'] = 'lines'
        elif not q and st.mon['sec'] == 'lines':
            st.mon['first'] = False
            st.mon['k'] = I(st.mon['k'].l + 1)
            st.mon['sure'], st.mon['num'] = False, 'none'
            st.mon['pos'] = st.mon['s'] = st.mon['e'] = st.mon['j'] = I(0)
        elif not q and st.mon['sec'] == 'prev':
            st.mon['sec'] = 'lines'
            st.mon['p'] = I(st.mon['p'].l + 1)
        if not q:
            self.advance(st)

    def text(self, st):
        t = self.line(st, st.mon['row'].l)[2]
        return t if isinstance(t, STR) else STR(t.t, 0, atom(('len', t.t)))

    def char(self, st, ch):
        s = self.step(st)
        if not s:
            return self.bad(st, R_ORDER, 'writes %r where a line number belongs' % ch)
        if s[0] == 'X':
            self.must(st, R_TEXT, ('eq', count_to(self.text(st), st.mon['pos'].l) - st.mon['e'].l),
                      'the text shown ends after %r characters' % (count_to(self.text(st), st.mon['pos'].l),))
            self.next(st)
            return self.char(st, ch)
        if s[0] == 'T':
            if ch in '\t ':
                t, pos = self.text(st), st.mon['pos'].l
                self.must(st, R_PTR, ('ge', st.mon['j'].l - count_to(t, pos) - 1), 'the mark is too far to the right')
                c, w = next_char(Shim(self.e, st), STR(t.t, pos, t.hi))
                self.must(st, R_PTR, ('eq' if ch == '\t' else 'ne', c - 9), 'writes %r under another character' % ch)
                st.mon['pos'] = I(pos + w)
                return
            self.must(st, R_PTR, ('eq', st.mon['j'].l - count_to(self.text(st), st.mon['pos'].l)), 'the mark is not under the column')
            self.next(st)
            return self.char(st, ch)
        if s[0] == 'L':
            if s[1] != ch:
                return self.bad(st, R_ORDER, 'writes %r instead of %r' % (ch, s[1]))
            if len(s) == 2:
                self.ok(PID, R_ORDER)
                return self.next(st)
            st.mon['q'] = 'L' + st.mon['q'][2:]
            return
        if s[0] in 'MEP' and ch == '\n' or s[0] in 'MEPN':
            return self.bad(st, R_ORDER, 'writes %r instead of %s' % (ch, {'M': 'the message', 'E': 'the error', 'P': 'the line', 'N': 'a number'}[s[0]]))

    def piece(self, st, p):
        e, m = self.e, st.mon
        s = self.step(st)
        v = p.f[0] if isinstance(p, IT) and p.kind == 'shown' else p
        n = 0
        while isinstance(v, P) and n < 6:
            v = e.read(st, v.cell, v.path)
            n += 1
        if not s:
            return self.begin(st, v)
        if s == 'M':
            self.need(st, PID, R_ORDER, self.same_text(st, v, self.arg[3]), 'shows %r as the message' % (v,))
            return self.next(st)
        if s == 'E':
            same = v == self.error or isinstance(v, (A, S)) and v.ty == self.error.ty and e.expand(st, v) == e.expand(st, self.error)
            self.need(st, PID, R_ORDER, same, 'shows %r as the error' % (v,))
            return self.next(st)
        if s[0] == 'N':
            return self.number(st, v, s[1])
        if s[0] == 'P':
            self.need(st, PID, R_PREV, self.same_text(st, v, self.line(st, m['p'].l)[2]), 'shows %r as line %r' % (v, m['p']))
            return self.next(st)
        if s[0] == 'X':
            t, pos = self.text(st), m['pos'].l
            if isinstance(v, STR) and v.t == t.t:
                self.must(st, R_TEXT, ('eq', v.lo - pos), 'the text shown goes on at %r' % (v.lo,))
                m['pos'] = I(v.hi)
                return
            if isinstance(v, I):
                # characters past the end?
                self.must(st, R_TEXT, ('ge', m['e'].l - count_to(t, pos) - 1), 'the text shown is too long')
                l = v.l
                if len(l.t) == 1 and l.c == 0 and l.t[0][1] == 1 and l.t[0][0][0] == 'ch' and l.t[0][0][1] == t.t:
                    at = lin(l.t[0][0][2])
                    self.must(st, R_TEXT, ('eq', at - pos), 'shows the character at %r of the line' % (at,))
                else:
                    at = pos
                    self.must(st, R_TEXT, ('eq', l - atom(('ch', t.t, pos))), 'shows %r' % (v,))
                _, w = next_char(Shim(e, st), STR(t.t, at, t.hi))
                m['pos'] = I(at + w)
                return
        return self.lost(st, R_ORDER, 'writes %r' % (p,))

    def same_text(self, st, a, b):
        k = 0
        while isinstance(b, P) and k < 6:
            b = self.e.read(st, b.cell, b.path)
            k += 1
        f = lambda v: v if isinstance(v, STR) else STR(v.t, 0, atom(('len', v.t))) if isinstance(v, S) else v
        return f(a) == f(b)

    def begin(self, st, v):
        """A line of the report begins with a number."""
        m = st.mon
        if not isinstance(v, I):
            return self.lost(st, R_ORDER, 'a line that begins with %r' % (v,))
        self.advance(st)
        k = m['k'].l
        row = v.l - 1
        if m['first'] and not self.msg and self.e.variant(st, self.error) == self.tag_var() and st.facts.decide(('eq', row - k)) is not True:
            d = st.facts.decide(('ge', k - row - 1))
            if d is None:
                return self.lost(st, R_ORDER, 'a line numbered %r where the next to show is %r' % (v, k))
            if d is True:
                if self.touched(st, row):
                    # lines before k are not touched
                    raise Dead('infeasible')
                if m['prev']:
                    self.must(st, R_PREV, ('eq', row - m['p'].l), 'shows line %r after line %r' % (row, m['p'].l - 1))
                m['p'], m['prev'], m['sec'], m['q'] = I(row), True, 'prev', 'L: \0P\0L\n'
                return
        if m['first'] and st.facts.decide(('ge', k - row - 1)) is True and self.touched(st, row):
            raise Dead('infeasible')
        if m['prev']:
            self.must(st, R_PREV, ('eq', k - m['p'].l), 'the lines before end at %r, the report goes on at %r' % (m['p'].l, k))
        elif m['first'] and not self.msg and self.e.variant(st, self.error) == self.tag_var():
            self.must(st, R_PREV, ('eq', k), 'shows no line before line %r' % (k,))
        m['prev'] = False
        if st.holds_ge(k, self.n):
            return self.bad(st, R_ALL, 'shows line %r after the last' % (row,))
        t = self.touched(st, k)
        if t is not True:
            return self.lost(st, R_ALL, 'shows line %r' % (row,))
        self.must(st, R_ALL, ('eq', row - k), 'shows line number %r where line %r is next' % (v, k + 1))
        # where the place starts in the line
        m['row'] = I(k)
        o, n, _ = self.line(st, k)
        text = self.text(st)
        d = self.off - o
        if st.ge(ZERO, d):
            j = ZERO
        else:
            j = count_to(text, d)
            if not st.ge(text.hi, d):
                # only a handler that was not made by `new`
                raise Dead('not a line')
        s = j - 50 if st.ge(j, 76) else ZERO
        full = count_to(text, text.hi)
        st.assume(('ge', full - j))
        e = s + 100 if st.ge(full, s + 100) else full
        m['s'], m['e'], m['j'] = I(s), I(e), I(j)
        # kept apart
        kind = 'from %s to %s' % ('0' if not s.t else 's', 'e' if e == full else '100')
        if self.only in KINDS and kind != self.only:
            raise Dead('another run')
        m['num'] += ' ' + kind
        m['q'] = 'L,\0Nj\0L: \0X\0L\n' + ('\0Nk\0L,\0Nj\0L: \0T\0L^\n' if m['first'] else '')

    def number(self, st, v, which):
        m = st.mon
        if not isinstance(v, I):
            return self.lost(st, R_NUM, 'writes %r' % (v,))
        want = m['j' if which == 'j' else 'k'].l + 1
        self.must(st, R_NUM, ('eq', v.l - want), 'writes %s %r instead of %r' % ('column' if which == 'j' else 'line', v.l, want))
        if which == 'j' and m['first'] or which == 'j' and 'T' not in m['q']:
            # by the name it has in the code
            j, s, e = m['j'].l, m['s'].l, m['e'].l
            if s == j - 50:
                m['j'] = I(v.l - 1)
                m['s'] = I(v.l - 51)
                if e == s + 100:
                    m['e'] = I(v.l + 49)
        self.next(st)

    def kinds(self):
        return [x['name'] for x in self.p.types[self.error.ty]['variants']]

    def tag_var(self):
        return self.kinds().index('ExpectedTag')

    def returned(self, st, v):
        e, m = self.e, st.mon
        ok = e.variant(st, v) == 0
        if not self.need(st, PID, R_FAIL, ok != m['failed'], 'returns %s' % ('Ok after a failure' if ok else 'an error without a failure')) or not ok:
            return
        if not self.need(st, PID, R_ORDER, not m['q'] and m['sec'] == 'lines', 'ends in the middle of a line'):
            return
        self.advance(st)
        if m['prev']:
            self.must(st, R_ALL, False, 'ends after the lines before')
        k = m['k'].l
        if st.ge(k, self.n):
            return self.ok(PID, R_ALL)
        self.need(st, PID, R_ALL, self.touched(st, k) is False if self.touched(st, k) is not None else ('ge', k - self.n), 'line %r is left out' % (k,))

    def call(self, *a):
        return None


def forget_lines(st, t, keep):
    """Drops what is known about lines that are done with."""
    def passed(x):
        out = set()
        walk_atoms(x, out)
        return any(isinstance(a, tuple) and len(a) == 3 and a[0] == 'e' and a[1] == t and isinstance(a[2], Lin) and not keep(a[2]) for a in out)
    f = st.facts
    f.ge = frozenset(g for g in f.ge if not passed(g))
    f.ne = frozenset(g for g in f.ne if not passed(g))
    f.var = {x: v for x, v in f.var.items() if not passed(x)}
    f.pred = {x: v for x, v in f.pred.items() if not passed(x)}


class DisplayMonitor(Monitor):
    """The text of an error."""
    def __init__(self, prog, root):
        Monitor.__init__(self, prog)
        self.root, self.where = root, 'ParseError::fmt'
        self.fn = prog.fns[prog.roots[root]]
        self.ety = strip(prog, self.fn['locals'][1])
        self.words = {}

    def args(self):
        return [P(('s', 'error')), P(OUT)]

    def setup(self, st):
        st.store[('s', 'error')] = S(('arg', 'error'), self.ety)
        st.store[OUT] = S(('arg', 'out'), strip(self.p, self.fn['locals'][2]))
        st.mon['said'], st.mon['failed'] = (), False

    def emit_failed(self, e, st, target):
        if isinstance(target, P) and target.cell == OUT:
            st.mon['failed'] = True

    def emit(self, e, st, target, pieces):
        if not (isinstance(target, P) and target.cell == OUT):
            return
        if st.mon['failed']:
            self.need(st, PID, R_FAIL, False, 'writes on after a failure')
        out = []
        for p in pieces:
            if isinstance(p, STR) and is_lit(p):
                out.append(lit_of(p))
            else:
                plain = isinstance(p, IT) and p.kind == 'shown' and p.f[1:] == ('display', ()) or isinstance(p, STR)
                out.append((p.f[0] if isinstance(p, IT) else p, plain))
        st.mon['said'] += tuple(out)

    def returned(self, st, v):
        e = self.e
        ok = e.variant(st, v) == 0
        if not self.need(st, PID, R_FAIL, ok != st.mon['failed'], 'returns %s' % ('Ok after a failure' if ok else 'an error without a failure')) or not ok:
            return
        x = st.store[('s', 'error')]
        n = e.variant(st, x)
        var = self.p.types[self.ety]['variants'][n]
        said = []
        for p in st.mon['said']:
            if isinstance(p, str) and said and isinstance(said[-1], str):
                said[-1] += p
            else:
                said.append(p)
        shown = [p for p in said if not isinstance(p, str)]
        for p in shown:
            if not p[1]:
                return self.record(PID, R_SAYS, self.where, False, False, '%s shows %r in its own way' % (var['name'], p[0]), st.trail_list())
        fs = [e.proj(st, x, (('v', n), ('f', j, ty))) for j, (_, ty) in enumerate(var['fields'])]
        names = [str(self.p.types[ty].get('name') or self.p.types[ty].get('def') or '') for _, ty in var['fields']]
        want = fs
        vals = [self.plain(st, p[0]) for p in shown]
        if len(fs) and isinstance(fs[-1], I):
            want = [fs[-1]] + fs[:-1]
            if not self.need(st, PID, R_ID, said and said[0] == '#' and len(vals) and vals[0] == self.plain(st, fs[-1]), '%s begins with %r' % (var['name'], said[:2])):
                return
        self.need(st, PID, R_SAYS, vals == [self.plain(st, y) for y in want], '%s shows %r' % (var['name'], vals))
        words = tuple(p if isinstance(p, str) else None for p in said)
        for n2, (w, _) in self.words.items():
            if n2 != var['name']:
                self.need(st, PID, R_APART, w != words, '%s and %s read the same: %r' % (n2, var['name'], words))
        self.words[var['name']] = (words, None)

    def plain(self, st, v):
        n = 0
        while isinstance(v, P) and n < 6:
            v = self.e.read(st, v.cell, v.path)
            n += 1
        if isinstance(v, S) and v.ty is not None:
            return v.t
        if isinstance(v, STR) and lin(v.lo) == ZERO and lin(v.hi) == atom(('len', v.t)):
            return v.t
        return v

    def call(self, *a):
        return None


R_ID = 'the text of an error begins with the number of the rule, when there is one'
R_SAYS = 'the text of an error shows everything the error carries'
R_APART = 'errors of different kinds read differently'
R_LINES = 'the lines kept are the lines of the text, with where each is'


class NewMonitor(Monitor):
    """How the text is put into lines."""
    ALL_PUSHES = True

    def __init__(self, prog, root):
        Monitor.__init__(self, prog)
        self.root, self.where = root, 'ParseErrorHandler::new'
        self.fn = prog.fns[prog.roots[root]]
        self.t = ('arg', 'text')

    def args(self):
        return [STR(self.t, 0, atom(('len', self.t)))]

    def setup(self, st):
        st.mon['pos'], st.mon['done'] = I(0), B(False)

    def at_head(self, st):
        if self.e.unroll:
            return
        # where a line starts is a number like any other
        if st.mon['done'].c is True:
            st.mon['pos'] = I(0)
        for a, _ in st.mon['pos'].l.t:
            if isinstance(a, tuple) and a[0] == 'sep':
                substitute(st, {a: atom(self.e.fresh('n'))})
        st.mon['pos'] = I(st.mon['pos'].l)

    def must(self, st, cond, why):
        if self.e.unroll:
            return self.need(st, PID, R_LINES, cond, why)
        c = c_norm(cond) if cond not in (True, False) else cond
        d = c if c in (True, False) else st.facts.decide(c)
        self.record(PID, R_LINES, self.where, d is True, False, why, st.trail_list())
        return d is True

    def line(self, st, x, pos):
        """Where the line after this one starts, None if the text ends."""
        e = self.e
        if not isinstance(x, A) or len(x.f) != 2:
            return self.lost(st, 'keeps %r' % (x,))
        r, t = x.f
        n = 0
        while isinstance(t, P) and n < 6:
            t = e.read(st, t.cell, t.path)
            n += 1
        if not isinstance(t, STR) or t.t != self.t:
            return self.lost(st, 'keeps %r' % (t,))
        fs = [i for i, _ in self.p.types[r.ty]['variants'][0]['fields']]
        off, length = (r.f[fs.index(k)] for k in ('offset', 'length'))
        end = atom(('sep', self.t, lin(pos), 10))
        st.assume(('ge', end - pos))
        st.assume(('ge', atom(('len', self.t)) - end))
        for what, a, b in (('starts', t.lo, pos), ('ends', t.hi, end), ('is said to start', off.l, pos), ('is said to be long', length.l, end - pos)):
            if not self.must(st, ('eq', a - b), 'a line %s %r instead of %r' % (what, a, b)):
                raise Dead('lost')
        if st.eq(end, atom(('len', self.t))):
            return None
        return end + 1

    def lost(self, st, why):
        self.record(PID, R_LINES, self.where, False, False, why, st.trail_list())
        raise Dead('lost')

    def vec_push(self, e, st, ptr, v, x):
        if e.unroll:
            return
        if st.mon['done'].c is True:
            return self.lost(st, 'a line after the last')
        n = self.line(st, x, st.mon['pos'].l)
        if n is None:
            st.mon['done'] = B(True)
        else:
            st.mon['pos'] = I(n)

    def returned(self, st, v):
        e = self.e
        if not e.unroll:
            return self.must(st, st.mon['done'].c is True, 'the last line is left out')
        lines = v.f[0] if isinstance(v, A) else None
        if not isinstance(lines, VV) or any((b - a).const is None for _, a, b in lines.segs):
            return self.lost(st, 'returns %r' % (v,))
        pos = ZERO
        for x, a, b in lines.segs:
            for _ in range((b - a).const):
                if pos is None:
                    return self.must(st, False, 'a line after the last')
                pos = self.line(st, x, pos)
        self.must(st, pos is None, 'ends with a line that starts at %r' % (pos,))

    def call(self, *a):
        return None


def error_kinds(prog):
    t = strip(prog, prog.fns[prog.roots['r_display']]['locals'][1])
    return [x['name'] for x in prog.types[t]['variants']]


def run_report(prog, root, most=None, only=None, missing=None, time_limit=300):
    mon = {'r_err_new': NewMonitor, 'r_display': DisplayMonitor}[root](prog, root) if root in ('r_err_new', 'r_display') else \
        ReportMonitor(prog, root, most or (LINES if Engine.UNROLL else None), only, missing)
    eng = Engine(prog, Natives(readtoken.install(prog)), hooks=[mon], monitor=mon, time_limit=time_limit)
    eng.max_blocks = 150000
    eng.track_panics = Engine.PANICS
    eng.track_ends = Engine.ENDS
    eng.keep_items = isinstance(mon, NewMonitor) and bool(Engine.UNROLL)
    eng.counting = isinstance(mon, ReportMonitor)
    mon.e = eng
    args = mon.args()
    eng.run([eng.start(prog.roots[root], args, mon.setup)])
    if isinstance(mon, ReportMonitor) and not eng.incomplete:
        mon.finish()
    return eng, mon


if __name__ == '__main__':
    import sys, time
    from mir import Program
    sys.setrecursionlimit(20000)
    if len(sys.argv) > 2 and sys.argv[2].startswith('-u'):
        Engine.UNROLL = int(sys.argv.pop(2)[2:])
    p = Program(sys.argv[1])
    for r in sys.argv[2:] or ['r_err_write_msg', 'r_err_write']:
        t0 = time.time()
        eng, mon = run_report(p, r)
        print('==', r, eng.blocks_run, eng.paths, len(eng.returned), eng.incomplete, eng.unknown, '%.1fs' % (time.time() - t0))
        for k, s in sorted(mon.book.d.items()):
            print('   ', k[1:], s['ok'], s['bad'], s['open'], str((s['ex'] or (s['why'],))[0])[:300])
