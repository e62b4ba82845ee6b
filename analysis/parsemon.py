"""Follows one call of `Rule::parse` for one kind of rule. Recursive calls are replaced by the
contract that the same analysis proves for every kind; ghost values record the position, the
accepted data and the deepest error, and every step is compared with what the rule kind means."""
from dom import *
from interp import Engine, Fork, Dead, GiveUp
from oblig import Monitor
from stdmodel import as_str, skey, C, Natives, str_eq
import readtoken

LEAVES = ('Whitespace', 'Tag', 'UntilAny', 'UntilAnyOrWhitespace', 'Text', 'Number')
SEM = {'Select': 'C06', 'FastSelect': 'C06', 'Sequence': 'C07', 'Repeat': 'C08', 'SeparateBy': 'C08', 'Lines': 'C08',
       'Optional': 'C09', 'Not': 'C09', 'Node': 'C04', 'Whitespace': 'C10', 'Tag': 'C10', 'UntilAny': 'C10',
       'UntilAnyOrWhitespace': 'C10', 'Text': 'C10', 'Number': 'C10'}


def strip(p, ty):
    while p.types[ty]['k'] in ('ref', 'ptr'):
        ty = p.types[ty]['to']
    return ty


class ParseTypes:
    def __init__(self, p):
        self.p = p
        root = p.fns[p.roots['r_rule_parse']]
        L = root['locals']
        self.rule, self.tokens, self.state, self.rt, self.refs, self.indent = [strip(p, L[i]) for i in range(1, 7)]
        self.res = L[0]
        rt = p.types[self.res]
        self.tup = rt['variants'][0]['fields'][0][1]
        self.err = rt['variants'][1]['fields'][0][1]
        self.range, _, self.opt = p.types[self.tup]['els']
        self.refs_ty = L[5]
        self.range_data = p.types[self.tokens]['args'][0]
        self.variants = [v['name'] for v in p.types[self.rule]['variants']]

    def fld(self, ty, name):
        i = self.p.field_index(ty, name)
        if i is None:
            raise GiveUp('no field %s in %s' % (name, self.p.tstr(ty)))
        return i

    def mkrange(self, off, n):
        return A(self.range, 0, [I(off) if nm == 'offset' else I(n) if nm == 'length' else A(fty, 0, ())
                                 for nm, fty in self.p.types[self.range]['variants'][0]['fields']])


TOK, STATE, RT, IND = ('s', 'tokens'), ('s', 'state'), ('s', 'read_token'), ('s', 'indent')


class ParseMonitor(Monitor):
    INDENT = False      # follow the indentation of lines

    def __init__(self, prog, variant):
        Monitor.__init__(self, prog)
        self.t = ParseTypes(prog)
        self.kind = variant
        self.lines = self.keeps_text = self.INDENT and variant == 'Lines'
        self.where = variant
        self.sem = SEM.get(variant, 'C06')
        self.vi = self.t.variants.index(variant)
        payload_ty = prog.types[self.t.rule]['variants'][self.vi]['fields'][0][1]
        term = ('f', ('arg', 'rule'), self.vi, 0)
        pt = prog.types[payload_ty]
        if pt['k'] == 'adt' and pt['box']:
            term = ('*', term)
            payload_ty = pt['args'][0]
        self.payload, self.payload_ty = term, payload_ty
        self.fields = [n for n, _ in prog.types[payload_ty]['variants'][0]['fields']]

    # --- set up --------------------------------------------------------------------------
    def args(self):
        t = self.t
        return [P(('m', ('arg', 'rule'), t.rule)), P(TOK), P(STATE), P(RT),
                self.e.mk(('arg', 'refs'), t.refs_ty), P(IND)]

    def setup(self, st):
        t = self.t
        n0, s0, off0 = atom(('arg', 'tokens.len')), atom(('arg', 'state')), atom(('arg', 'offset'))
        n = atom(('len', ('arg', 'text')))
        st.store[TOK] = VO(t.tokens, 'tok', n0)
        st.store[STATE] = A(t.state, 0, [I(s0)])
        rtf = [None, None]
        rtf[t.fld(t.rt, 'src')] = STR(('arg', 'text'), 0, n)
        rtf[t.fld(t.rt, 'offset')] = I(off0)
        st.store[RT] = A(t.rt, 0, rtf)
        st.store[IND] = S(('arg', 'indent'), t.indent)
        st.store[IND] = self.e.expand(st, st.store[IND])
        st.facts.var[('arg', 'rule')] = self.vi
        st.assume(('ge', n0 - s0))
        self.n0, self.s0, self.off0, self.n = n0, s0, off0, n
        self.ind0 = st.store[IND]
        m = st.mon
        m['pos'] = I(0)
        m['st'] = I(s0)
        m['valid'] = I(s0)
        m['best'] = None
        m['k'] = I(0)
        m['last'] = 'none'
        m['phase'] = 'rule'
        m['nd'] = 0
        m['d0'] = m['d1'] = None
        m['first'] = 'none'
        if self.kind == 'SeparateBy':
            m['ppos'], m['pst'], m['ipos'] = I(0), I(s0), I(0)
        if self.kind == 'Repeat':
            m['len'] = I(0)
        if self.kind in ('Repeat', 'SeparateBy'):
            m['again1'] = m['again2'] = m['again3'] = None
        if self.lines:
            m['line'], m['lines'] = None, I(0)
            m['block'] = self.ind0.f[t.fld(t.indent, 'indent')]
            self.tab = self.ind0.f[t.fld(t.indent, 'tab_spaces')].l

    # --- fields of the rule under analysis ---------------------------------------------------
    def field(self, name, ty=None):
        i = self.fields.index(name)
        fty = self.p.types[self.payload_ty]['variants'][0]['fields'][i][1]
        return self.e.mk(('f', self.payload, 0, i), fty)

    def flag(self, st, name):
        return st.truth(self.field(name))

    def wellformed(self, st, cond):
        if cond[0] != 'ge':
            return False
        if self.kind == 'Node':
            # update_refs leaves indices of the list of rules (C15)
            i = self.opt_field(st, 'index')
            n = atom(('len', ('*', ('arg', 'refs'))))
            return i is not None and any(cond[1] == x - i.l - 1 for x in (n, atom(('len', ('arg', 'refs')))))
        if self.kind == 'FastSelect':
            # the table is made by optimize_rule (C14): 255, or the place of an alternative; there is at least one
            n = atom(('len', ('f', self.payload, 0, self.fields.index('args'))))
            if cond[1] == n - 1:
                return True
            tab = ('f', self.payload, 0, self.fields.index('table'))
            for a, _ in cond[1].t:
                if isinstance(a, tuple) and a[0] == 'e' and a[1] == tab and cond[1] == n - atom(a) - 1:
                    return st.facts.decide(('ne', atom(a) - 255)) is True
        return False

    def opt_field(self, st, name):
        """None, or the payload of an optional field (splits the state if unknown)."""
        v = self.field(name)
        if self.e.variant(st, v) == 0:
            return None
        return self.e.proj(st, v, (('v', 1), ('f', 0, self.p.types[v.ty]['variants'][1]['fields'][0][1])))

    def ident(self, st, v):
        """Which sub rule a pointer names: ('field', name), ('elem', name, index), ('ref', index)."""
        x = v
        n = 0
        while isinstance(x, P) and n < 4:
            x = self.e.read(st, x.cell, x.path)
            n += 1
        if not isinstance(x, S):
            return ('?', x)
        t = x.t
        if t[0] == 'f' and t[1] == self.payload:
            return ('field', self.fields[t[3]])
        if t[0] == 'e' and t[1][0] == 'f' and t[1][1] == self.payload:
            return ('elem', self.fields[t[1][3]], t[2])
        if t[0] == 'e' and t[1] == ('*', ('arg', 'refs')):
            return ('ref', t[2])
        return ('?', x)

    # --- token stream ------------------------------------------------------------------------
    def vec_push(self, e, st, ptr, v, x):
        if ptr.cell != TOK:
            return
        m = st.mon
        st.note('append data %s at %r' % (short(self.p, x), v.n))
        if st.holds_eq(v.n, m['valid'].l):
            m['valid'] = I(v.n + 1)
            self.remember(m)
            m['st'] = I(v.n + 1)
        if m['nd'] < 2:
            m['d%d' % m['nd']] = x
        m['nd'] = min(m['nd'] + 1, 3)
        if self.kind == 'Node' and m['nd'] == 1:
            m['dpos'] = m['last']

    def vec_truncate(self, e, st, ptr, v, mm):
        if ptr.cell != TOK:
            return
        m = st.mon
        st.note('truncate data to %r' % (mm,))
        self.need(st, 'C05', 'data that was there before the call is kept', ('ge', mm - self.s0),
                  'truncates to %r, below the %r items the caller had accepted' % (mm, self.s0))
        if not st.holds_ge(mm, m['valid'].l):
            if st.ge(m['valid'].l, mm):
                m['valid'] = I(mm)

    # --- sub rules ---------------------------------------------------------------------------
    def call(self, e, st, fr, f, fid, args, rty, span):
        if self.lines and self.p.fns[fr.fn]['name'].startswith('roots::models::m_lines') and len(args) > 1 \
                and not f['def'].startswith(('roots::', 'read_token::')):
            self.line(st, args[1] if isinstance(args[1], P) else args[1].f[0])
        if f['name'] != 'piston_meta::Rule::parse' or not st.mon.get('#go'):
            if f['name'] == 'piston_meta::Rule::parse':
                st.mon['#go'] = 'y'
            return None
        return self.child(e, st, args)

    def call_opaque(self, e, st, fr, fv, args, rty, span):
        return None

    def child(self, e, st, args):
        m = st.mon
        who = self.ident(st, args[0])
        if not (isinstance(args[1], P) and args[1].cell == TOK):
            raise GiveUp('sub rule writes to another list')
        s = e.read(st, args[2].cell, args[2].path)
        if isinstance(s, S):
            s = e.expand(st, s)
        s = s.f[0].l
        rt = e.read(st, args[3].cell, args[3].path)
        src = rt.f[self.t.fld(self.t.rt, 'src')]
        off = rt.f[self.t.fld(self.t.rt, 'offset')].l
        refs = args[4]
        c = e.choose(st, 3)     # 0: Ok without error, 1: Ok with error, 2: Err
        text = 'sub rule %s at position %r with %r items accepted' % (show_who(who), src.lo if isinstance(src, STR) else '?', s)
        st.note(text + (' fails' if c == 2 else ' succeeds'))
        tok = st.store[TOK]
        # position
        if isinstance(src, STR) and src.t == ('arg', 'text'):
            self.need_eq(st, ('C03', SEM[self.kind]), 'a sub rule gets the rest of the text', src.hi, self.n, text)
            self.need_eq(st, ('C03', SEM[self.kind]), 'a sub rule gets the offset of its text', off, self.off0 + src.lo, text)
        else:
            self.need(st, ('C03', SEM[self.kind]), 'a sub rule gets the rest of the text', False, text)
            src = STR(('arg', 'text'), e.fresh('unk') and atom(e.fresh('unk')), self.n)
        self.rewind(st, src.lo, s)
        if self.kind == 'Lines':
            self.need(st, ('C03', SEM[self.kind]), 'a sub rule starts where the last one ended', ('ge', src.lo - m['pos'].l), text)
        else:
            self.need_eq(st, ('C03', SEM[self.kind]), 'a sub rule starts where the last one ended', src.lo, m['pos'].l, text)
        self.need_eq(st, ('C02', SEM[self.kind]), 'a sub rule starts from the data accepted so far', s, m['st'].l, text)
        self.need(st, ('C02', SEM[self.kind]), 'the data accepted so far is intact', ('ge', m['valid'].l - s), text)
        self.need(st, 'C05', 'data that was there before the call is kept', ('ge', s - self.s0), text)
        if isinstance(refs, SL):
            self.need(st, self.sem, 'sub rules see the same list of rules',
                      refs.cell == ('m', ('*', ('arg', 'refs')), self.p.types[self.t.refs_ty]['to']) and st.holds_eq(refs.lo, 0)
                      and st.holds_eq(refs.hi, atom(('len', ('*', ('arg', 'refs'))))) or
                      refs == e.mk(('arg', 'refs'), self.t.refs_ty), text)
        self.step(st, who, c, src, s, text)
        # contract
        n2 = atom(e.fresh('len'))
        if c == 2:
            err = S(e.fresh('err'), self.t.err)
            st.assume(('ge', n2 - s))
            st.store[TOK] = VO(tok.ty, tok.tag, n2)
            if not st.holds_ge(s, m['valid'].l):
                if st.ge(m['valid'].l, s):
                    m['valid'] = I(s)
            self.seen(st, err)
            m['last'] = 'err'
            return A(self.t.res, 1, [err])
        L = atom(e.fresh('length'))
        e.bnd(st, src.t, src.lo + L)
        s2 = atom(e.fresh('accepted'))
        st.assume(('ge', src.hi - src.lo - L))
        st.assume(('ge', s2 - s))
        st.assume(('ge', n2 - s2))
        st.store[TOK] = VO(tok.ty, tok.tag, n2)
        self.remember(m)
        m['pos'], m['st'] = I(src.lo + L), I(s2)
        m['valid'] = I(s2)
        m['last'] = 'ok'
        if self.kind == 'Repeat':
            m['len'] = I(L)
        if c == 1:
            err = S(e.fresh('err'), self.t.err)
            self.seen(st, err)
            opt = A(self.t.opt, 1, [err])
        else:
            opt = A(self.t.opt, 0, ())
        return A(self.t.res, 0, [A(self.t.tup, 0, [self.t.mkrange(off, L), A(self.t.state, 0, [I(s2)]), opt])])

    def remember(self, m):
        if self.kind == 'SeparateBy':
            m['ppos'], m['pst'] = m['pos'], m['st']

    def rewind(self, st, pos, s):
        """The last success may be given up as a whole: position and data together."""
        m = st.mon
        if st.holds_eq(pos, m['pos'].l) and st.holds_eq(s, m['st'].l):
            return
        if self.kind == 'SeparateBy' and st.holds_eq(pos, m['ppos'].l) and st.holds_eq(s, m['pst'].l):
            m['pos'], m['st'] = m['ppos'], m['pst']

    def err_end(self, err):
        t = self.t
        o, l = t.fld(t.err, 'offset'), t.fld(t.err, 'length')
        if isinstance(err, A):
            return err.f[o].l + err.f[l].l
        tys = self.p.types[t.err]['variants'][0]['fields']
        return self.e.mk(('f', err.t, 0, o), tys[o][1]).l + self.e.mk(('f', err.t, 0, l), tys[l][1]).l

    def seen(self, st, err):
        if self.kind == 'Not':
            return
        m = st.mon
        end = self.err_end(err)
        if m['best'] is None or st.ge(end, self.best(m)):
            m['best'] = err

    def best(self, m):
        b = m['best']
        return b.l if isinstance(b, I) else self.err_end(b)

    def at_head(self, st):
        # name the deepest error after the variable that holds it
        b = st.mon['best']
        if b is None:
            return
        end = self.best(st.mon)
        for v in held(st, self.t.err):
            if v == b:
                return
        for v in held(st, self.t.err):
            if st.holds_eq(self.err_end(v), end):
                st.mon['best'] = v
                return
        if not isinstance(b, I):
            st.mon['best'] = I(end)

    # --- meaning of each kind ------------------------------------------------------------------
    def step(self, st, who, c, src, s, text):
        m, k, sem = st.mon, self.kind, self.sem
        ok = c != 2
        if k in ('Select', 'Sequence'):
            good = who[0] == 'elem' and who[1] == 'args'
            rule = 'sub rules are tried in order' if k == 'Select' else 'every sub rule is matched, in order'
            if self.need(st, sem, rule, good, text):
                self.need_eq(st, sem, rule, who[2], m['k'].l, text)
            else:
                return
            self.need(st, sem, 'nothing is tried after the outcome is known',
                      m['last'] != ('ok' if k == 'Select' else 'err'), text)
            if ok == (k == 'Sequence'):
                m['k'] = I(m['k'].l + 1)
        elif self.lines:
            self.line_read(st, src.lo, text)
        elif k == 'FastSelect':
            good = who[0] == 'elem' and who[1] == 'args'
            if not self.need(st, sem, 'the looked-up sub rule is tried first', good, text):
                return
            self.need(st, sem, 'nothing is tried after the outcome is known', m['last'] != 'ok', text)
            look = self.table_entry(st)
            last = atom(('len', ('f', self.payload, 0, self.fields.index('args')))) - 1
            if m['phase'] == 'rule':
                if look is not None and not st.eq(look, 255):
                    self.need_eq(st, sem, 'the looked-up sub rule is tried first', who[2], look, text)
                    m['phase'] = 'tail'
                else:
                    self.need(st, sem, 'the last sub rule is tried when the lookup finds none', self.flag(st, 'tail'), text)
                    self.need_eq(st, sem, 'the last sub rule is tried when the lookup finds none', who[2], last, text)
                    m['phase'] = 'end'
            elif m['phase'] == 'tail':
                self.need(st, sem, 'the last sub rule is tried when the lookup finds none', self.flag(st, 'tail'), text)
                self.need_eq(st, sem, 'the last sub rule is tried when the lookup finds none', who[2], last, text)
                m['phase'] = 'end'
            else:
                self.fail(st, sem, 'nothing is tried after the outcome is known', text)
        elif k in ('Optional', 'Not'):
            self.need(st, sem, 'the sub rule is tried once', who == ('field', 'rule') and m['last'] == 'none', text)
        elif k == 'Repeat':
            self.need(st, sem, 'the sub rule is repeated until it fails', who == ('field', 'rule') and m['last'] != 'err', text)
            if m['last'] == 'ok':
                self.need(st, sem, 'nothing is repeated once it reads nothing', ('ne', m['len'].l), text)
            self.again(st, src.lo, text)
            if ok:
                m['first'] = 'some'
        elif k == 'SeparateBy':
            self.need(st, sem, 'items and separators alternate', who == ('field', m['phase']), text)
            self.need(st, sem, 'nothing is tried after a failure', m['last'] != 'err', text)
            if m['phase'] == 'rule':
                if m['last'] == 'ok':
                    self.need(st, sem, 'nothing is repeated once it reads nothing', ('ne', m['pos'].l - m['ipos'].l), text)
                self.again(st, src.lo, text)
                m['ipos'] = m['pos']
            if ok:
                if m['phase'] == 'by':
                    m['first'] = 'some'
                m['phase'] = 'by' if m['phase'] == 'rule' else 'rule'
        elif k == 'Lines':
            self.need(st, sem, 'each line is read by the sub rule', who == ('field', 'rule'), text)
        elif k == 'Node':
            idx = self.opt_field(st, 'index')
            good = idx is not None and who[0] == 'ref' and m['last'] == 'none'
            if self.need(st, 'C15', 'a node reads the rule it refers to', good, text):
                self.need_eq(st, 'C15', 'a node reads the rule it refers to', who[1], idx.l, text)
            prop = self.opt_field(st, 'property')
            self.need(st, 'C04', 'a named node starts before its contents', m['nd'] == (0 if prop is None else 1), text)
        else:
            self.fail(st, sem, 'a rule without sub rules calls none', text)

    def again(self, st, pos, text):
        """The same rule with the same text gives the same: three reads of nothing, and there is no end of them."""
        m = st.mon
        if self.e.unroll and m['again3'] is not None:
            facts = st.facts.copy()
            stuck = all(facts.assume(('eq', m['again%d' % i].l - pos)) is not False for i in (1, 2, 3))
            self.need(st, 'C11', 'what reads nothing is not tried for ever', not stuck, text)
        m['again3'], m['again2'], m['again1'] = m['again2'], m['again1'], I(pos) if self.e.unroll else None

    def table_entry(self, st):
        """Table entry for the first byte of the text, or None at the end of the text."""
        if not st.ge(self.n, 1):
            return None
        ch = atom(('ch', ('arg', 'text'), ZERO))
        i = self.fields.index('table')
        look = atom(('e', ('f', self.payload, 0, i), atom(('lead', ch))))
        # the entries are bytes
        return lin(255) if st.holds_ge(look, 255) else look

    # --- the indentation of lines ----------------------------------------------------------------
    def ind(self, st, nm):
        v = st.store[IND]
        if isinstance(v, S):
            v = self.e.expand(st, v)
        return v.f[self.t.fld(self.t.indent, nm)]

    def line(self, st, rt):
        """Another line is tried."""
        m = st.mon
        if m.get('line') is not None:
            self.line_refused(st)
        rt = self.e.read(st, rt.cell, rt.path)
        src = rt.f[self.t.fld(self.t.rt, 'src')] if isinstance(rt, A) else None
        m['line'] = I(src.lo) if isinstance(src, STR) and src.t == ('arg', 'text') else None
        m['lines'] = I(m['lines'].l + 1)

    def blank_at(self, st, q):
        """What is known of the character at q: ' ', tab, 'other', 'end' or None, with whether anything is."""
        if st.holds_ge(q, self.n):
            return 'end'
        no = set()
        ch = atom(('ch', ('arg', 'text'), q))
        for c in ' \t':
            t = ('prefix', (('arg', 'text'), q), (('lit', c), ZERO, lin(1)))
            r = [v for k, v in st.facts.pred.items() if isinstance(k, tuple) and k[0] == 'prefix' and k[1][0] == ('arg', 'text')
                 and k[2][0] == ('lit', c) and (k[1][1] == q or st.holds_eq(k[1][1], q))]
            r = r[0] if r else st.facts.decide(('eq', ch - ord(c)))
            if r is None:
                r = st.facts.decide(('eq', atom(('lead', ch)) - ord(c)))
            if r:
                return c
            if r is False:
                no.add(c)
        return 'other' if len(no) == 2 else tuple(sorted(no))

    def line_cols(self, st, a, q):
        """Follows the blank characters from a: (columns left to the indentation of the block, columns beyond it, position,
        what stands there). Stops at q, or if q is None where it is known that no blank character stands."""
        left, extra, tab = st.mon['block'].l, ZERO, self.tab
        first = self.first_sets(st)
        for i in range(40):
            at = a + i
            c = self.blank_at(st, at)
            if q is not None and st.holds_eq(at, q) or c not in (' ', '\t'):
                return left, extra, at, c
            over = not st.ge(left, 1)
            if over and not first:
                return left, extra, at, c
            if over:
                extra = extra + (1 if c == ' ' else tab)
            elif c == ' ':
                left = left - 1
            else:
                left = ZERO if st.ge(tab, left) else left - tab
        raise GiveUp('long indentation')

    def first_sets(self, st):
        return st.holds_eq(st.mon['lines'].l, 1) and st.truth(self.ind0.f[self.t.fld(self.t.indent, 'align_first')])

    def line_read(self, st, q, text):
        m, PID = st.mon, 'C31'
        a, m['line'] = m.get('line'), None
        if a is None or m['block'] is None:
            return
        a = a.l
        if not self.flag(st, 'indent'):
            self.need_eq(st, PID, 'lines without indentation are read from their start', a, q, text)
            self.need_eq(st, PID, 'the rule of lines without indentation gets the settings as they were', self.ind(st, 'indent'), self.ind0.f[self.t.fld(self.t.indent, 'indent')], text)
            return
        left, extra, at, c = self.line_cols(st, a, q)
        R = 'a line is read if it begins with the indentation of the block'
        if not st.holds_eq(at, q):
            # what stands between is not known to be blank
            if isinstance(c, tuple) and not c or st.weak is not None:
                return self.lost(st, R, 'goes past a character that was not looked at')
            return self.needs(st, R, False, 'goes past a character that is not blank (%r at %r), or beyond the indentation, from %r; %s' % (c, at, a, text), a, q, left)
        self.need(st, PID, R, ('eq', left), 'columns missing: %r; %s' % (left, text))
        R = 'nothing blank follows the indentation of a line that is read'
        first = self.first_sets(st)
        for b in (' ', '\t') if first else (' ',):
            if c == b:
                self.needs(st, R, False, text, a, q, left)
            elif isinstance(c, tuple) and b not in c:
                self.needs(st, R, False, 'does not look at what follows; %s' % text, a, q, left)
            else:
                self.ok(PID, R)
        block = m['block'].l + extra
        m['block'] = I(block)
        self.need_eq(st, PID, 'the rule of a line gets one column more than the block', self.ind(st, 'indent'), block + 1, text)
        for nm in ('align_first', 'tab_spaces'):
            x, y = self.ind(st, nm), self.ind0.f[self.t.fld(self.t.indent, nm)]
            self.need(st, PID, 'the rule of a line gets the other settings as they were', x == y or isinstance(x, I) and st.holds_eq(x.l, y.l), text)

    def line_refused(self, st):
        m, PID = st.mon, 'C31'
        a, m['line'] = m.get('line'), None
        if a is None or m['block'] is None:
            return
        R = 'a line ends the block only if its indentation is another'
        if not self.flag(st, 'indent'):
            return self.need(st, PID, R, False, 'a line without indentation is not tried')
        left, extra, at, c = self.line_cols(st, a.l, None)
        if st.ge(left, 1):
            good = c in ('other', 'end')
        else:
            good = c == ' ' and not self.first_sets(st)
        self.needs(st, R, good, 'refused with %r columns missing before %r' % (left, c), a.l, left)

    def needs(self, st, rule, good, why, *terms):
        """good, if the terms are of one path."""
        return self.need(st, 'C31', rule, good, why)

    def lost(self, st, rule, why):
        st.mon['block'] = None
        self.record('C31', rule, self.where, False, False, why, st.trail_list())

    # --- outcome -----------------------------------------------------------------------------
    def returned(self, st, v):
        if self.lines and st.mon.get('line') is not None:
            self.line_refused(st)
        e, m, sem, k = self.e, st.mon, self.sem, self.kind
        var = e.variant(st, v)
        if isinstance(v, S):
            v = e.expand(st, v)
        # indentation
        ind = st.store[IND]
        if isinstance(ind, S):
            ind = e.expand(st, ind)
        for (nm, _), a, b in zip(self.p.types[self.t.indent]['variants'][0]['fields'], ind.f, self.ind0.f):
            if isinstance(a, I):
                self.need_eq(st, 'C13', 'indentation settings are as before', a, b, 'returns with %s = %r' % (nm, a))
            else:
                self.need(st, 'C13', 'indentation settings are as before', a == b, 'returns with %s = %r' % (nm, a))
        if var == 1:
            err = v.f[0]
            if isinstance(err, S) is False and not isinstance(err, A):
                raise GiveUp('error value')
            end = self.err_end(err)
            st.note('returns an error ending at %r' % (end,))
            if m['best'] is not None:
                self.need(st, 'C12', 'the deepest error is reported', ('ge', end - self.best(m)), 'reports an error ending at %r' % (end,))
            else:
                self.ok('C12', 'the deepest error is reported')
            self.outcome(st, False, None, None, err)
            return
        tup = v.f[0]
        if isinstance(tup, S):
            tup = e.expand(st, tup)
        rng, sv, opt = tup.f
        if isinstance(rng, S):
            rng = e.expand(st, rng)
        if isinstance(sv, S):
            sv = e.expand(st, sv)
        o, l = self.t.fld(self.t.range, 'offset'), self.t.fld(self.t.range, 'length')
        off, ln, s = rng.f[o].l, rng.f[l].l, sv.f[0].l
        txt = 'returns length %r with %r items accepted' % (ln, s)
        st.note(txt)
        self.need_eq(st, ('C03', SEM[self.kind]), 'the range starts where the rule started', off, self.off0, 'returns range starting at %r' % (off,))
        self.need(st, ('C03', SEM[self.kind]), 'the range ends inside the text', ('ge', self.n - ln), txt)
        if e.track_panics:
            v = e.boundary(st, STR(('arg', 'text'), 0, self.n), ln)
            self.book.record('C26', 'what is read ends between two characters', self.where, v == 'ok', v == 'sure' and st.weak is None, txt, st.trail_list())
        tok = st.store[TOK]
        if k not in LEAVES:
            self.rewind(st, ln, s)
        if k == 'Not':
            m['pos'], m['st'] = I(0), I(self.s0)
        if k == 'Lines':
            self.need(st, ('C03', SEM[self.kind]), 'the range covers what the sub rules read', ('ge', ln - m['pos'].l), txt)
        elif k not in LEAVES:
            self.need_eq(st, ('C03', SEM[self.kind]), 'the range covers what the sub rules read', ln, m['pos'].l, txt)
        self.need_eq(st, ('C02', SEM[self.kind]), 'exactly the accepted data is reported', s, m['st'].l, txt)
        self.need(st, ('C02', SEM[self.kind]), 'the accepted data is intact', ('ge', m['valid'].l - s), txt)
        self.need(st, ('C02', SEM[self.kind]), 'the accepted data is present', ('ge', tok.n - s), txt)
        self.need(st, 'C05', 'data that was there before the call is kept', ('ge', s - self.s0), txt)
        ov = e.variant(st, opt)
        if ov == 1:
            err = e.proj(st, opt, (('v', 1), ('f', 0, self.t.err)))
            if m['best'] is not None:
                end = self.err_end(err)
                self.need(st, 'C12', 'the deepest error is reported', ('ge', end - self.best(m)), 'passes on an error ending at %r' % (end,))
        else:
            self.need(st, 'C12', 'the deepest error is reported', m['best'] is None, 'passes on no error although a sub rule reported one')
        self.outcome(st, True, ln, s, None)

    def outcome(self, st, ok, ln, s, err):
        m, sem, k = st.mon, self.sem, self.kind
        w = 'success' if ok else 'failure'
        if k == 'Sequence':
            if ok:
                self.need(st, sem, 'succeeds only if every sub rule does', m['last'] != 'err', 'succeeds after a sub rule failed')
                self.need_eq(st, sem, 'succeeds only if every sub rule does', m['k'].l, self.nargs(),
                             'succeeds after %r sub rules' % (m['k'].l,))
            else:
                self.need(st, sem, 'fails only if a sub rule does', m['last'] == 'err', 'fails although no sub rule failed')
        elif k == 'Select':
            if ok:
                self.need(st, sem, 'succeeds with the first sub rule that does', m['last'] == 'ok', 'succeeds without a sub rule')
            else:
                self.need(st, sem, 'fails only if every sub rule does', m['last'] != 'ok', 'fails although a sub rule succeeded')
                self.need_eq(st, sem, 'fails only if every sub rule does', m['k'].l, self.nargs(),
                             'fails after %r sub rules' % (m['k'].l,))
        elif k == 'FastSelect':
            if ok:
                self.need(st, sem, 'succeeds with the first sub rule that does', m['last'] == 'ok', 'succeeds without a sub rule')
            else:
                self.need(st, sem, 'fails only if every sub rule does', m['last'] != 'ok', 'fails although a sub rule succeeded')
                if m['last'] == 'none':
                    look = self.table_entry(st)
                    self.need(st, sem, 'fails only if every sub rule does', look is None or st.eq(look, 255),
                              'fails without trying the looked-up rule')
                if self.flag(st, 'tail') and not st.eq(self.nargs(), 0):
                    self.need(st, sem, 'fails only if every sub rule does', m['phase'] == 'end', 'fails without trying the last rule')
        elif k == 'Optional':
            self.need(st, sem, 'an optional rule never fails', ok, 'fails')
            self.need(st, sem, 'the sub rule is tried once', m['last'] != 'none', 'succeeds without trying the sub rule')
        elif k == 'Not':
            self.need(st, sem, 'a negated rule succeeds exactly when its sub rule fails', m['last'] == ('err' if ok else 'ok'), w + ' after the sub rule reported ' + m['last'])
            if ok:
                self.need_eq(st, sem, 'a negated rule reads nothing', ln, 0, 'reads %r' % (ln,))
                self.need_eq(st, sem, 'a negated rule adds no data', s, self.s0, 'has %r items' % (s,))
        elif k == 'Repeat':
            opt = self.flag(st, 'optional')
            if ok:
                if m['last'] == 'ok':
                    self.need_eq(st, sem, 'repeats until the sub rule fails', m['len'].l, 0, 'stops after a success that read %r' % (m['len'].l,))
                else:
                    self.need(st, sem, 'repeats until the sub rule fails', m['last'] == 'err', 'succeeds without trying the sub rule')
                    if not opt:
                        self.need(st, sem, 'at least one repetition is required', m['first'] == 'some', 'succeeds without a repetition')
            else:
                self.need(st, sem, 'fails only if the first repetition does', m['last'] == 'err' and m['first'] == 'none', 'fails')
                self.need(st, sem, 'an optional repetition never fails', not opt, 'fails although optional')
        elif k == 'SeparateBy':
            opt, trail = self.flag(st, 'optional'), self.flag(st, 'allow_trail')
            if m['last'] == 'ok':
                self.need(st, sem, 'the list goes on until something fails', ok, 'fails although the last sub rule succeeded')
                if m['phase'] == 'rule':
                    self.need_eq(st, sem, 'the list goes on until something fails', m['pos'].l, m['ipos'].l, 'stops after a separator')
                else:
                    self.need_eq(st, sem, 'the list goes on until something fails', m['pos'].l, m['ipos'].l, 'stops after an item')
            elif m['last'] == 'none':
                self.fail(st, sem, 'the list goes on until something fails', w + ' without trying an item')
            elif m['phase'] == 'by':
                self.need(st, sem, 'a list ends when no separator follows', ok, 'fails although an item was read')
            elif m['first'] == 'none':
                self.need(st, sem, 'only an optional list can be empty', ok == opt, '%s with no item' % w)
            else:
                self.need(st, sem, 'a trailing separator is accepted exactly when allowed', ok == trail, '%s after a trailing separator' % w)
        elif k == 'Node':
            idx = self.opt_field(st, 'index')
            prop = self.opt_field(st, 'property')
            if idx is None:
                self.need(st, 'C15', 'an unresolved reference is an error', not ok, 'succeeds without a rule')
                return
            self.need(st, 'C15', 'a node reads the rule it refers to', m['last'] == ('ok' if ok else 'err'), w + ' after ' + m['last'])
            if ok:
                if prop is None:
                    self.need(st, 'C04', 'a node without a name adds no data', m['nd'] == 0, 'adds data')
                elif self.need(st, 'C04', 'a named node is started and ended once', m['nd'] == 2, 'adds %s items' % m['nd']):
                    self.data_is(st, 'C04', m['d0'], ZERO, ZERO, 'StartNode', prop)
                    self.data_is(st, 'C04', m['d1'], ZERO, ln, 'EndNode', prop)
                    self.need(st, 'C04', 'a named node ends after its contents', m.get('dpos') == 'none', 'starts after its contents')
        elif k == 'Lines':
            if ok:
                self.ok(sem, 'each line is read by the sub rule')
        else:
            self.leaf(st, ok, ln, s, err)

    def nargs(self):
        return atom(('len', ('f', self.payload, 0, self.fields.index('args'))))

    # --- data items ------------------------------------------------------------------------------
    def data_is(self, st, pid, d, lo, ln, kind, name, val=None):
        """A data item with this range, kind, name and value."""
        e = self.e
        if d is None:
            self.fail(st, pid, 'the data describes what was read', 'no data')
            return
        if isinstance(d, S):
            d = e.expand(st, d)
        ty = d.ty
        o, l, x = (self.t.fld(ty, n) for n in ('offset', 'length', 'data'))
        r3 = 'the data carries the range that was read'
        self.need_eq(st, 'C03', r3, d.f[o].l, self.off0 + lo, '%s data at %r' % (kind, d.f[o].l))
        self.need_eq(st, 'C03', r3, d.f[l].l, ln, '%s data of length %r' % (kind, d.f[l].l))
        md = d.f[x]
        vi = e.variant(st, md)
        if isinstance(md, S):
            md = e.expand(st, md)
        vn = self.p.types[md.ty]['variants'][vi]['name']
        if not self.need(st, pid, 'the data has the kind of the rule', vn == kind, '%s instead of %s' % (vn, kind)):
            return
        c = C(e, st, None, None, (), None, None)
        a, b = as_str(c, md.f[0]), as_str(c, name)
        self.need(st, pid, 'the data has the name given in the rule', a == b, 'name %r instead of %r' % (a, b))
        if val is not None:
            x = md.f[1]
            if isinstance(val, STR):
                x = as_str(c, x)
                same = x.t == val.t and st.holds_eq(x.lo, val.lo) and st.holds_eq(x.hi, val.hi)
            elif isinstance(val, bool):
                same = st.truth(x) == val
            else:
                same = x == val
            self.need(st, pid, 'the data has the value that was read', same, 'value %r instead of %r' % (x, val))

    def leaf(self, st, ok, ln, s, err):
        e, k, m = self.e, self.kind, st.mon
        src = STR(('arg', 'text'), ZERO, self.n)
        c = C(e, st, None, None, (), None, None)
        props = 'property' in self.fields
        val, kind, want_ok, want_len, ename, elo, elen = None, None, None, None, None, ZERO, ZERO
        if k == 'Tag':
            text = as_str(c, self.field('text'))
            match = st.truth(('p', ('prefix', (src.t, src.lo), skey(text))))
            neg = self.flag(st, 'not')
            want_ok = match != neg
            want_len = (text.hi - text.lo) if match else ZERO
            kind = 'Bool'
            if want_ok and props and self.opt_field(st, 'property') is not None:
                val = not self.flag(st, 'inverted')
            ename = 'DidNotExpectTag' if neg else 'ExpectedTag'
        elif k in ('UntilAny', 'UntilAnyOrWhitespace'):
            chars = as_str(c, self.field('any_characters'))
            u = atom(('until_any' if k == 'UntilAny' else 'until_any_or_ws', skey(src), skey(chars)))
            want_ok = self.flag(st, 'optional') or not st.eq(u, 0)
            want_len, kind, val, ename = u, 'String', STR(src.t, ZERO, u), 'ExpectedSomething'
        elif k == 'Whitespace':
            u = atom(('whitespace', skey(src)))
            want_ok = self.flag(st, 'optional') or not st.eq(u, 0)
            want_len, ename = u, 'ExpectedWhitespace'
        elif k == 'Number':
            fl = self.field('allow_underscore')
            if not st.truth(('p', ('is_number', skey(src), fl))):
                want_ok, ename = False, 'ExpectedNumber'
            else:
                u = atom(('number', skey(src), fl))
                key = (skey(src), fl, u)
                want_ok = st.truth(('p', ('parse_number_ok',) + key))
                want_len, kind, ename = u, 'F64', 'ParseNumberError'
                val = S(('parse_number',) + key, self.p.find_type('f64') if self.p.find_type('f64') is not None else self.p.find_type('float'))
        elif k == 'Text':
            if not st.truth(('p', ('is_string', skey(src)))):
                want_ok, ename = False, 'ExpectedText'
            else:
                u = atom(('string', skey(src)))
                if not self.flag(st, 'allow_empty') and st.eq(u, 2):
                    want_ok, ename = False, 'EmptyTextNotAllowed'
                else:
                    key = (skey(src), u)
                    want_ok = st.truth(('p', ('parse_string_ok',) + key))
                    want_len, kind, ename = u, 'String', 'ParseStringError'
                    t = ('parse_string',) + key
                    val = STR(t, ZERO, atom(('len', t)))
        self.need(st, 'C10', 'a rule accepts exactly the text it describes', ok == want_ok,
                  '%s where %s is expected' % ('success' if ok else 'failure', 'success' if want_ok else 'failure'))
        if ok != want_ok:
            return
        if ok:
            self.need_eq(st, 'C10', 'a rule reads exactly the text it describes', ln, want_len, 'reads %r' % (ln,))
            prop = self.opt_field(st, 'property') if props else None
            if prop is None:
                self.need(st, 'C10', 'a rule without a name adds no data', m['nd'] == 0, 'adds data')
            elif self.need(st, 'C10', 'a named rule adds one item', m['nd'] == 1, 'adds %s items' % m['nd']):
                self.data_is(st, 'C10', m['d0'], ZERO, want_len, kind, prop, val)
        else:
            x = err.f[self.t.fld(self.t.err, 'data')] if isinstance(err, A) else None
            got = self.p.types[x.ty]['variants'][x.v]['name'] if isinstance(x, A) else None
            if x is not None:
                self.need(st, 'C10', 'a failure says what was expected', got == ename, 'reports %s instead of %s' % (got, ename))
                dbg = [y for y in x.f if isinstance(y, I)]
                want = self.field('debug_id')
                self.need(st, 'C10', 'a failure names the rule', len(dbg) == 1 and dbg[0] == want, 'debug id %r' % (dbg,))


def held(st, ty):
    out = []

    def look(v):
        if isinstance(v, (A, S)) and v.ty == ty:
            out.append(v)
        elif isinstance(v, A):
            for x in v.f:
                look(x)
    for c in sorted(st.store, key=repr):
        look(st.store[c])
    return out


def show_who(w):
    if w[0] == 'field':
        return '`%s`' % w[1]
    if w[0] == 'elem':
        return '%s[%r]' % (w[1], w[2])
    if w[0] == 'ref':
        return 'refs[%r]' % (w[1],)
    return repr(w[1])


def short(p, x):
    try:
        for y in x.f:
            if isinstance(y, A) and y.ty is not None and p.types[y.ty].get('name', '').endswith('MetaData'):
                return p.types[y.ty]['variants'][y.v]['name']
    except Exception:
        pass
    return '?'


def run_variant(prog, variant, time_limit=200):
    mon = ParseMonitor(prog, variant)
    nat = Natives(readtoken.install(prog))
    eng = Engine(prog, nat, hooks=[mon], monitor=mon, time_limit=time_limit)
    eng.track_panics = Engine.PANICS
    eng.track_ends = Engine.ENDS
    mon.e = eng
    fid = prog.roots['r_rule_parse']
    st = eng.start(fid, mon.args(), mon.setup)
    eng.run([st])
    return eng, mon


if __name__ == '__main__':
    import sys, time
    from mir import Program
    p = Program(sys.argv[1])
    names = sys.argv[2:] or ParseTypes(p).variants
    for v in names:
        t0 = time.time()
        eng, mon = run_variant(p, v)
        print('==', v, 'blocks', eng.blocks_run, 'paths', eng.paths, 'ret', len(eng.returned), 'wid', eng.widenings, 'inc', eng.incomplete, '%.1fs' % (time.time() - t0))
        for k, n in eng.unknown.items():
            print('   unknown', k, n)
        for k, s in sorted(mon.book.d.items()):
            if s['bad'] or s['open']:
                print('   ', k, s['ok'], s['bad'], s['open'], (s['ex'] or (s['why'],))[0])
                if s['ex'] and len(names) == 1:
                    for x in s['ex'][1]:
                        print('         ', x)
