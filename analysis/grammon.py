"""The grammar built into the library against the one documented in assets/self-syntax.txt."""
import os
from dom import *
from interp import Engine, GiveUp
from oblig import Monitor
from stdmodel import Natives
from build import REPO
import readtoken, metalang
from ruleview import View, Unclear, show_rule, differ

DOC = os.path.join(REPO, 'assets', 'self-syntax.txt')
# what the reader of syntax documents has to be able to read, whatever the document says
STABLE = ['whitespace', 'until_any_or_whitespace', 'until_any', 'lines', 'repeat', 'number', 'text', 'reference', 'sequence',
          'select', 'separated_by', 'tag', 'optional', 'not']


class GrammarMonitor(Monitor):
    where = 'bootstrap::rules'

    def __init__(self, prog):
        Monitor.__init__(self, prog)
        self.where = GrammarMonitor.where
        self.doc = metalang.read(open(DOC, encoding='utf-8').read())

    def call(self, e, st, fr, f, fid, args, rty, span):
        if f['name'] == 'piston_meta::meta_rules::update_refs':
            x = e.read(st, args[0].cell, args[0].path)
            st.mon['resolved'] = View(e, self.p).fld(st, x, x.ty, 'rules').n
            return A(rty, 0, ())
        return None

    def setup(self, st):
        st.mon['resolved'] = None

    def returned(self, st, v):
        try:
            syn = View(self.e, self.p).syntax(st, v)
        except Unclear as x:
            raise GiveUp('the built-in grammar holds %s' % x)
        R = 'the built-in grammar has the documented rules in the documented order'
        if not self.need(st, 'C16', R, syn is not None, 'rules and names differ in number'):
            return
        at = st.mon['resolved']
        done = at is not None and st.holds_eq(at, len(syn))
        a = [n for n, _, _ in syn]
        todo = [y for x in syn for y in x[2]]
        while todo:
            kind, _, sub, name, index = todo.pop()
            todo += sub
            if kind == 'Node':
                good = done and name in a if index is None else name in a and st.holds_eq(index, a.index(name))
                self.need(st, 'C16', 'every reference of the built-in grammar leads to the rule of that name', good,
                          'the reference to %s %s' % (name, 'leads to rule %r' % index if index is not None else
                          'has no rule' if done else 'is left unresolved: references are resolved when there are %r of %d rules' % (at, len(syn))))
        a, b = [n for n, _, _ in syn], [n for _, n, _ in self.doc]
        if not self.need(st, 'C16', R, a == b, 'has the rules %s, documented are %s' % (a, b)):
            return
        for (n, r, ids), (nid, _, d) in zip(syn, self.doc):
            x = differ(r, d)
            self.need(st, 'C16', 'rule %s is the documented one' % n, x is None,
                      x and '%s%s is %s, documented is %s' % (n, x[0], show_rule(x[1]), show_rule(x[2])))
            todo = list(ids)
            while todo:
                k, i, sub, _, _ = todo.pop()
                todo += sub
                if i.const is None:
                    raise GiveUp('debug id %r' % (i,))
                self.need(st, 'C18', 'built-in rules have the debug ids of their node', i.const // 1000 == nid,
                          '%s of node %d (%s) has debug id %d' % (k, nid, n, i.const))


def run_grammar(prog, time_limit=60):
    mon = GrammarMonitor(prog)
    eng = Engine(prog, Natives(readtoken.install(prog)), hooks=[mon], monitor=mon, time_limit=time_limit)
    eng.track_panics = Engine.PANICS
    eng.track_ends = Engine.ENDS
    mon.e = eng
    eng.run([eng.start(prog.roots['r_rules'], [], mon.setup)])
    return eng, mon
