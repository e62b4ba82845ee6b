"""What is written as JSON: a reader of JSON follows the pieces of text as they are written and compares
what they say with the data given."""
from dom import *
from interp import Engine, Dead
from oblig import Monitor, forget_items, held_items
from stdmodel import Natives, is_lit, lit_of
import readtoken
from parsemon import strip

OUT = ('s', 'out')
ESC = {'"': '"', '\\': '\\', '/': '/', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}
PID = 'C21'
ITEMS = 3


class JsonMonitor(Monitor):
    def __init__(self, prog, root):
        Monitor.__init__(self, prog)
        self.root, self.where = root, 'json::write_string' if root == 'r_json_write_string' else 'json::write'
        self.fn = prog.fns[prog.roots[root]]
        self.whole = root == 'r_json_write'
        self.string_def = 'piston_meta::json::write_string'

    def args(self):
        e = self.e
        a = e.mk(('arg', 'data' if self.whole else 'text'), self.fn['locals'][2])
        self.arg = a
        if self.whole:
            self.item_ty = self.p.types[self.p.types[self.fn['locals'][2]]['to']]['of']
        return [P(OUT), a]

    def setup(self, st):
        st.store[OUT] = S(('arg', 'out'), strip(self.p, self.fn['locals'][1]))
        if self.whole and self.e.unroll:
            # a few items and all their kinds
            st.assume(('ge', lin(ITEMS) - self.arg.hi))
        m = st.mon
        m['ph'], m['esc'], m['failed'] = 'gap', '', False
        m['k'], m['pos'], m['first'], m['comma'], m['kind'] = I(0), I(0), True, False, ''

    # --- the data ---------------------------------------------------------------------------
    def item(self, st):
        x = self.e.read(st, self.arg.cell, self.arg.path + (('i', st.mon['k'].l, self.item_ty),))
        fs = self.p.types[self.item_ty]['variants'][0]['fields']
        j = [n for n, _ in fs].index('data')
        return self.e.proj(st, x, (('f', j, fs[j][1]),))

    def kind(self, st):
        """Kind of the next item, None after the last."""
        if not st.ge(self.arg.hi, st.mon['k'].l + 1):
            return None
        d = self.item(st)
        st.mon['kind'] = self.p.types[d.ty]['variants'][self.e.variant(st, d)]['name']
        return st.mon['kind']

    def part(self, st, j):
        d = self.item(st)
        v = self.e.variant(st, d)
        return self.e.proj(st, d, (('v', v), ('f', j, self.p.types[d.ty]['variants'][v]['fields'][j][1])))

    def text(self, st, v):
        n = 0
        while isinstance(v, P) and n < 6:
            v = self.e.read(st, v.cell, v.path)
            n += 1
        if isinstance(v, STR):
            return v
        if isinstance(v, S):
            return STR(v.t, 0, atom(('len', v.t)))
        return None

    def current(self, st):
        """The text that the string being written stands for."""
        if not self.whole:
            return self.text(st, self.arg)
        return self.text(st, self.part(st, 0 if st.mon['ph'] == 'name' else 1))

    def at_head(self, st):
        if self.whole and not self.e.unroll:
            forget_items(st, self.arg, st.mon['k'].l, held_items(st, self.arg))

    # --- what is written ----------------------------------------------------------------------
    def emit(self, e, st, target, pieces):
        if not (isinstance(target, P) and target.cell == OUT):
            return
        if not e.unroll and len(pieces) > 1 and any(isinstance(p, IT) and isinstance(p.f[0], I) for p in pieces):
            # put together in a loop, maybe, that has forgotten where its characters were
            st.weak = st.weak or 'putting a text together'
        for p in pieces:
            if st.mon['ph'] == 'broken':
                return
            if isinstance(p, STR) and is_lit(p):
                for ch in lit_of(p):
                    self.char(st, ch)
            else:
                self.piece(st, p)

    def emit_failed(self, e, st, target):
        if isinstance(target, P) and target.cell == OUT:
            st.mon['failed'] = True

    def bad(self, st, rule, why):
        self.need(st, PID, rule, False, why)
        raise Dead('broken')

    def char(self, st, ch):
        """A character known in advance."""
        m = st.mon
        ph = m['ph']
        if ph == 'broken':
            return
        if ph in ('name', 'string'):
            return self.in_string(st, ch)
        R = 'the data is written item by item, in the syntax of JSON'
        if ch in ' \n\t\r':
            return
        if not self.whole:
            if ch == '"' and ph == 'gap':
                m['ph'], m['pos'] = 'name', I(self.current(st).lo)
                return
            return self.bad(st, 'a text is written as one JSON string', 'writes %r outside of the string' % ch)
        kind = self.kind(st)
        if kind is None:
            return self.bad(st, R, 'writes %r after the last item' % ch)
        if ph == 'gap':
            want = not m['first'] and kind != 'EndNode'
            if ch == ',':
                if not self.need(st, PID, 'a comma between two items of a node, and nowhere else', want and not m['comma'],
                                 'writes a comma before %s %s' % (kind, 'at the start of a node' if m['first'] else '')):
                    raise Dead('broken')
                m['comma'] = True
                return
            if not self.need(st, PID, 'a comma between two items of a node, and nowhere else', m['comma'] == want,
                             'writes %s after another item without a comma' % kind):
                raise Dead('broken')
                return
            if ch == ('}' if kind == 'EndNode' else '"'):
                self.ok(PID, R)
                if ch == '}':
                    return self.done(st)
                m['ph'] = 'name'
                m['pos'] = I(self.current(st).lo)
                return
            return self.bad(st, R, 'writes %r for %s' % (ch, kind))
        if ph == 'colon':
            if ch != ':':
                return self.bad(st, R, 'writes %r after the name of %s' % (ch, kind))
            m['ph'] = 'value'
            return
        if ph == 'value':
            if kind == 'StartNode' and ch == '{':
                self.ok(PID, R)
                return self.done(st, True)
            if kind == 'String' and ch == '"':
                m['ph'] = 'string'
                m['pos'] = I(self.current(st).lo)
                return
            m['ph'], m['esc'] = 'word', ''
            ph = 'word'
        if ph == 'word':
            m['esc'] += ch
            w = m['esc']
            if kind == 'Bool' and ('true'.startswith(w) or 'false'.startswith(w)):
                if w in ('true', 'false'):
                    v = self.part(st, 1)
                    self.need(st, PID, 'the value written is the value of the item', st.truth(v) == (w == 'true'), 'writes %s for the opposite' % w)
                    self.done(st)
                return
            if kind == 'F64' and 'null'.startswith(w):
                if w == 'null':
                    v = self.part(st, 1)
                    f = st.facts.decide(('p', ('finite', v.t if isinstance(v, S) else v)))
                    self.need(st, PID, 'null is written for numbers that JSON can not represent, and only for them', f is False,
                              'writes null for a number that may be finite')
                    self.done(st)
                return
            return self.bad(st, R, 'writes %r as the value of %s' % (w, kind))
        raise ValueError(ph)

    def done(self, st, first=False):
        m = st.mon
        m['ph'], m['k'], m['first'], m['comma'], m['esc'], m['pos'], m['kind'] = 'gap', I(m['k'].l + 1), first, False, '', I(0), ''

    def in_string(self, st, ch):
        m = st.mon
        R = 'a JSON reader gets back each character of a text'
        esc = m['esc']
        if esc.startswith('\\u'):
            if ch not in '0123456789abcdefABCDEF':
                return self.bad(st, R, 'writes the escape %r' % (esc + ch))
            esc = m['esc'] = esc + ch
            if len(esc) == 6:
                m['esc'] = ''
                self.value(st, lin(int(esc[2:], 16)))
            return
        if esc == '\\':
            if ch == 'u':
                m['esc'] = '\\u'
                return
            m['esc'] = ''
            if ch not in ESC:
                return self.bad(st, R, 'writes the escape %r' % ('\\' + ch))
            return self.value(st, lin(ord(ESC[ch])))
        if ch == '\\':
            m['esc'] = '\\'
            return
        if ch == '"':
            s = self.current(st)
            if not self.need(st, PID, 'a JSON string ends after the last character of its text', ('eq', m['pos'].l - s.hi),
                             'the string ends at byte %r' % (m['pos'].l,)):
                raise Dead('broken')
                return
            if not self.whole:
                m['ph'] = 'end'
            elif m['ph'] == 'name':
                m['ph'] = 'colon'
            else:
                self.done(st)
            return
        if ord(ch) < 0x20:
            return self.bad(st, R, 'writes the control character %r' % ch)
        self.value(st, lin(ord(ch)))

    def value(self, st, v):
        """The next character of the text, as a reader understands it."""
        m = st.mon
        R = 'a JSON reader gets back each character of a text'
        s = self.current(st)
        pos = m['pos'].l
        if not st.holds_ge(s.hi, pos + 1):
            if not st.ge(s.hi, pos + 1):
                return self.bad(st, R, 'writes a character after the last one')
        if is_lit(s):
            x = lit_of(STR(s.t, pos, s.hi))[0]
            ch, w = lin(ord(x)), lin(len(x.encode()))
        else:
            ch = atom(('ch', s.t, pos))
            w = None
        if not self.need(st, PID, R, ('eq', v - ch), lambda: 'writes %s for character %r' % (self.show(v), ch)):
            raise Dead('broken')
            return
        if w is None:
            w = lin(1) if st.ge(lin(127), ch) else atom(('cw', s.t, pos))
        m['pos'] = I(pos + w)

    def show(self, v):
        return repr(chr(v.const)) if v.const is not None else repr(v)

    def piece(self, st, p):
        """Something only known when it is written."""
        m = st.mon
        ph = m['ph']
        R = 'a JSON reader gets back each character of a text'
        if isinstance(p, IT) and p.kind == 'jstr':
            self.char(st, '"')
            if m['ph'] in ('name', 'string') and m['esc'] == '':
                s = self.current(st)
                if self.need(st, PID, 'the texts of an item are written in its place', s == p.f[0], 'writes %r for %r' % (p.f[0], s)):
                    m['pos'] = I(s.hi)
                    self.char(st, '"')
                    return
            if m['ph'] != 'broken':
                raise Dead('broken')
            return
        if isinstance(p, STR) and p.t[0] == 'utf8':
            p = IT('shown', (I(p.t[1]), 'display', ()))
        if isinstance(p, IT) and p.kind == 'shown':
            v, how, opts = p.f
            if isinstance(v, STR) and how == 'display' and not opts:
                p = v
            elif isinstance(v, S) and how == 'display' and not opts and self.p.types[v.ty]['k'] in ('str',) or (
                    isinstance(v, S) and self.p.adt_short(v.ty) == 'String'):
                p = self.text(st, v)
        if isinstance(p, STR):
            if is_lit(p):
                for ch in lit_of(p):
                    self.char(st, ch)
                return
            if ph not in ('name', 'string'):
                return self.bad(st, 'the data is written item by item, in the syntax of JSON', 'writes the text %r' % (p,))
            s = self.current(st)
            if s == p:
                return self.bad(st, R, 'writes the text without escaping it')
            st.weak = st.weak or 'writing a part of a text'
            return self.bad(st, R, 'writes the text %r' % (p,))
        v, how, opts = p.f
        if isinstance(v, I) and how == 'display' and not opts:
            for x in ESC:
                if st.holds_eq(v.l, ord(x)):
                    return self.char(st, x)
        if isinstance(v, I) and ph in ('name', 'string'):
            if how == 'display' and not opts and m['esc'] == '':
                for c, w in (('ge', v.l - 32), 'may be a control character'), (('ne', v.l - 34), 'may be a quote'), (('ne', v.l - 92), 'may be a backslash'):
                    if not self.need(st, PID, R, c, 'writes a character as it is that %s' % w):
                        raise Dead('broken')
                        return
                return self.value(st, v.l)
            if how in ('lower_hex', 'upper_hex') and m['esc'].startswith('\\u'):
                width = dict((o[0], o[1]) for o in opts).get('width', 0)
                zero = dict((o[0], o[1]) for o in opts).get('flags', 0) & (1 << 24) != 0
                left = 6 - len(m['esc'])
                done = m['esc'][2:]
                if not width or not zero:
                    # as many digits as it takes
                    n = next((n for n in range(1, 5) if st.holds_ge(lin(16 ** n - 1), v.l) and (n == 1 or st.holds_ge(v.l, 16 ** (n - 1)))), None)
                    if n != left or done.strip('0'):
                        return self.bad(st, R, 'writes an escape of the wrong length')
                elif width != left or done.strip('0') or not st.holds_ge(lin(16 ** left - 1), v.l):
                    return self.bad(st, R, 'writes an escape of the wrong length')
                m['esc'] = ''
                return self.value(st, v.l)
            return self.bad(st, R, 'writes %r' % (p,))
        if not self.whole:
            return self.bad(st, R, 'writes %r' % (p,))
        kind = self.kind(st)
        R = 'the value written is the value of the item'
        if ph == 'value' and kind in ('Bool', 'F64') and how == 'display' and not opts:
            x = self.part(st, 1)
            if kind == 'F64':
                fin = st.facts.decide(('p', ('finite', x.t if isinstance(x, S) else x)))
                self.need(st, PID, 'null is written for numbers that JSON can not represent, and only for them', fin is True,
                          'writes a number that may not be finite')
            self.need(st, PID, R, v == x or (isinstance(v, B) and isinstance(x, B) and c_norm(v.c) == c_norm(x.c)), 'writes %r for %r' % (v, x))
            return self.done(st)
        self.bad(st, R, 'writes %r for %s' % (p, kind))

    # --- the end ---------------------------------------------------------------------------------
    def returned(self, st, v):
        e, m = self.e, st.mon
        ok = e.variant(st, v) == 0
        self.need(st, PID, 'the call fails exactly when the writer fails', ok != m['failed'],
                  'succeeds though the writer failed' if ok else 'fails though nothing failed')
        if not ok or m['ph'] == 'broken' or m['failed']:
            return
        R = 'everything is written before the call succeeds'
        if self.whole:
            if self.need(st, PID, R, m['ph'] == 'gap' and not m['comma'], 'stops in the middle of an item'):
                self.need(st, PID, R, ('eq', m['k'].l - self.arg.hi), 'stops at item %r' % (m['k'].l,))
        else:
            self.need(st, PID, R, m['ph'] == 'end', 'stops before the string ends')

    def call(self, e, st, fr, f, fid, args, rty, span):
        # writing a string is analysed on its own
        if not self.whole or f['def'] != self.string_def or len(args) != 2:
            return None
        t = self.text(st, args[1])
        if t is None:
            return None
        if e.choose(st, 2) == 1:
            self.emit_failed(e, st, args[0])
            return A(rty, 1, (e.mk(('ioerror',), self.p.types[rty]['variants'][1]['fields'][0][1]),))
        self.emit(e, st, args[0], (IT('jstr', (t,)),))
        return A(rty, 0, (A(None, 0, ()),))


def run_json(prog, root, time_limit=120):
    mon = JsonMonitor(prog, root)
    eng = Engine(prog, Natives(readtoken.install(prog)), hooks=[mon], monitor=mon, time_limit=time_limit)
    eng.track_panics = Engine.PANICS
    eng.track_ends = Engine.ENDS
    if eng.unroll and mon.whole:
        eng.max_blocks = 400000
    mon.e = eng
    eng.run([eng.start(prog.roots[root], mon.args(), mon.setup)])
    return eng, mon


if __name__ == '__main__':
    import sys, time
    from mir import Program
    sys.setrecursionlimit(20000)
    if len(sys.argv) > 2 and sys.argv[2].startswith('-u'):
        Engine.UNROLL = int(sys.argv.pop(2)[2:])
    p = Program(sys.argv[1])
    for r in sys.argv[2:] or ['r_json_write_string', 'r_json_write']:
        t0 = time.time()
        eng, mon = run_json(p, r)
        print('==', r, eng.blocks_run, eng.paths, len(eng.returned), eng.incomplete, eng.unknown, '%.1fs' % (time.time() - t0))
        for k, s in sorted(mon.book.d.items()):
            print('   ', k[1:], s['ok'], s['bad'], s['open'], (s['ex'] or (s['why'],))[0])
