"""Which analyses decide which property."""
import os
from multiprocessing import Pool
from oblig import Book
from interp import GiveUp

TRUST = [
    'rustc type-checks and lowers the program faithfully to MIR; the analyser reads that MIR',
    'std functions that are not lowered behave as modelled in analysis/stdmodel.py and roots/src/models.rs',
    'the read_token crate behaves as modelled in analysis/readtoken.py (its return values are within the text it was given)',
]


class Result:
    def __init__(self, pid):
        self.pid = pid
        self.slots = {}
        self.undecided = []
        self.stats = {}
        self.fns = set()
        self.explanation = ''
        self.assumptions = list(TRUST)

    def add_book(self, book):
        for k, v in book.d.items():
            if k[0] != self.pid:
                continue
            s = self.slots.setdefault(k, {'ok': 0, 'bad': 0, 'open': 0, 'ex': None, 'why': None})
            for f in ('ok', 'bad', 'open'):
                s[f] += v[f]
            for f in ('ex', 'why'):
                s[f] = s[f] or v[f]

    def add_engine(self, name, eng):
        """eng: summary of an engine run."""
        if eng['incomplete']:
            self.undecided.append('%s: %s' % (name, eng['incomplete']))
        for k, n in eng['unknown']:
            self.undecided.append('%s: not modelled: %s' % (name, k))
        self.stats[name] = {k: eng[k] for k in ('blocks', 'paths', 'returns', 'widenings', 'inputs') if k in eng}
        self.fns |= set(eng['fns'])


def summary(p, eng):
    return {'incomplete': eng.incomplete, 'unknown': sorted((str(k), n) for k, n in eng.unknown.items()),
            'blocks': eng.blocks_run, 'paths': eng.paths, 'returns': len(eng.returned), 'widenings': eng.widenings,
            'fns': sorted({p.fns[f]['name'] for f in eng.fns_seen if p.fns[f]['crate'].startswith('piston_meta')})}


def total(p, engs):
    out = {'incomplete': None, 'unknown': [], 'blocks': 0, 'paths': 0, 'returns': 0, 'widenings': 0, 'fns': set(), 'inputs': len(engs)}
    for w, e in engs:
        s = summary(p, e)
        if s['incomplete'] and not out['incomplete']:
            out['incomplete'] = '%s: %s' % (w, s['incomplete'])
        out['unknown'] += [x for x in s['unknown'] if x[0] not in [y[0] for y in out['unknown']]]
        out['fns'] |= set(s['fns'])
        for k in ('blocks', 'paths', 'returns', 'widenings'):
            out[k] += s[k]
    out['fns'] = sorted(out['fns'])
    return out


PROG = None
ROUNDS = 6              # how far the exact pass follows each loop


def run_kind(kind, arg):
    """([(name, engine)], obligations) of one analysis."""
    if kind == 'conv':
        from convmon import run_convert
        return run_convert(PROG, *arg)
    if kind == 'gram':
        from grammon import run_grammar
        eng, mon = run_grammar(PROG)
    elif kind == 'err' and not isinstance(arg, str):
        from errmon import run_report
        eng, mon = run_report(PROG, *arg)
    else:
        mod, fn = {'rule': ('parsemon', 'run_variant'), 'indent': ('parsemon', 'run_variant'), 'top': ('topmon', 'run_top'), 'opt': ('optmon', 'run_opt'), 'ref': ('refmon', 'run_ref'),
                   'search': ('searchmon', 'run_search'), 'cursor': ('cursormon', 'run_cursor'), 'wrap': ('wrapmon', 'run_wrap'),
                   'json': ('jsonmon', 'run_json'), 'err': ('errmon', 'run_report'), 'eq': ('eqmon', 'run_eq')}[kind]
        eng, mon = getattr(__import__(mod), fn)(PROG, arg)
    return [('', eng)], mon.book


LIBRARY = {'blank lines': 'the reader of lines', 'exponent': 'the reader of numbers'}
PANIC = {'exponent': 'the exponent of a number does not overflow', 'blank lines': 'blank lines are counted in bytes', 'index': 'an index is inside the list', 'subtraction': 'nothing is subtracted below zero', 'multiplication': 'numbers taken from texts do not overflow',
         'text range': 'a part of a text is inside the text', 'text cut between characters': 'a text is cut between characters'}


def panics(engs):
    """The points where the analysed code could panic, as obligations."""
    book = Book()
    for _, eng in engs:
        for (where, kind, n), r in eng.panics.items():
            rule = PANIC.get(kind, 'no panic: ' + kind)
            s = book.slot('C26', rule, LIBRARY.get(kind, where))
            s['ok'] += r['ok']
            s['bad'] += r['sure']
            s['open'] += r['open']
            if r['ex']:
                verdict, what, trail, weak, span = r['ex']
                from oblig import show_cond
                txt = '%s [needs %s]%s' % (span, show_cond(what) if isinstance(what, tuple) else what, ' (after %s)' % (weak,) if weak else '')
                if verdict == 'sure':
                    s['ex'] = s['ex'] or (txt, trail)
                else:
                    s['why'] = s['why'] or txt
    return book


def loops(engs):
    """Whether the loops that were followed end, as obligations."""
    book = Book()
    for _, eng in engs:
        for ((where, span), _), r in eng.ends.items():
            if span.startswith('/') is False and 'models.rs' in span:
                where = 'the loop of ' + where.split('::')[2].split('<')[0].replace('m_', '') if '::models::' in where else where
            s = book.slot('C11', 'a loop ends', where)
            if 'stuck' in r:
                s['bad'] += 1
                s['ex'] = s['ex'] or ('%s comes back to where it was: %s' % (span, r['stuck'][0]), r['stuck'][1])
            elif r['rounds'] and not r['ways']:
                s['open'] += 1
                s['why'] = s['why'] or '%s: nothing seen that runs out' % span
            else:
                s['ok'] += max(1, r['rounds'])
    return book


def job(spec):
    import interp
    kind, arg = spec[:2]
    interp.Engine.UNROLL = spec[2] if len(spec) > 2 else 0
    interp.Engine.PANICS = interp.Engine.ENDS = False
    import parsemon
    parsemon.ParseMonitor.INDENT = kind == 'indent'
    try:
        if kind == 'eff':
            from effmon import run_effects
            e = run_effects(PROG)
            return spec, {'incomplete': None, 'unknown': [], 'blocks': sum(len(PROG.fns[f].get('blocks') or []) for f in e.seen), 'paths': e.calls, 'returns': 0, 'widenings': 0,
                          'inputs': len(PROG.roots), 'fns': sorted({PROG.fns[f]['name'] for f in e.seen if PROG.fns[f]['crate'].startswith('piston_meta')})}, e.book
        if kind == 'panic':
            interp.Engine.PANICS = True
            engs, book = run_kind(*arg)
            book.merge(panics(engs))
        elif kind == 'ends':
            interp.Engine.ENDS = True
            engs, book = run_kind(*arg)
            book = loops(engs)
        else:
            engs, book = run_kind(kind, arg)
        return spec, total(PROG, engs) if kind == 'conv' or kind in ('panic', 'ends') and arg[0] == 'conv' else summary(PROG, engs[0][1]), book
    except (GiveUp, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, RecursionError) as x:
        import traceback
        return spec, {'incomplete': '%s: %s' % (type(x).__name__, x), 'unknown': [], 'blocks': 0, 'paths': 0, 'returns': 0,
                      'widenings': 0, 'fns': [], 'tb': traceback.format_exc()}, Book()


def run_jobs(res, specs, extra=()):
    global PROG
    PROG = res.prog
    from multiprocessing import get_context
    with get_context('fork').Pool(min(8, max(1, len(specs) + len(extra)))) as pool:
        for spec, summ, book in pool.imap_unordered(job, specs + [s + (ROUNDS,) for s in specs] + list(extra), chunksize=1):
            if len(spec) > 2 and spec[2]:
                # exact, but not all there is: what it finds counts, what it leaves out does not
                for k, v in book.d.items():
                    v['open'] = 0
                res.stats['%s %s, exactly, %d rounds of each loop' % (spec[0], spec[1], spec[2])] = {k: summ[k] for k in ('blocks', 'paths', 'returns')}
                res.fns |= set(summ['fns'])
                if spec[0] == 'indent' and summ['unknown']:
                    res.undecided += ['%s: not modelled: %s' % (spec[1], k) for k, n in summ['unknown']]
                res.add_book(book)
                continue
            if os.environ.get('META_DEBUG') and summ.get('tb'):
                print(summ['tb'])
            res.add_engine('%s %s' % (spec[0], spec[1]), summ)
            res.add_book(book)


# the slow ones first
RULES = ['Lines', 'SeparateBy', 'Sequence', 'Select', 'FastSelect', 'Repeat', 'Node', 'Optional', 'Not',
         'Whitespace', 'Tag', 'UntilAny', 'UntilAnyOrWhitespace', 'Text', 'Number']


def rules_of(prog):
    from parsemon import ParseTypes
    v = ParseTypes(prog).variants
    return [r for r in RULES if r in v] + [r for r in v if r not in RULES]


ENGINE = ('Abstract interpretation of the type-checked program (MIR), from every entry point with unconstrained arguments. '
          'Values are terms over named unknowns with linear facts; each loop is iterated to a fixed point and each recursive '
          'call is replaced by the contract the analysis proves for the callee. At each marked point the state must entail '
          'the rule; obligations count the abstract states checked.')


def rule_check(kinds, top=(), wrap=()):
    def go(res):
        res.explanation = ENGINE
        specs = [('rule', r) for r in rules_of(res.prog) if kinds is None or r in kinds]
        specs += [('top', t) for t in top] + [('wrap', x) for x in wrap]
        run_jobs(res, specs)
    return go


def indent_check(res):
    res.explanation = ENGINE + ' Here only the exact pass counts: each loop is followed for a number of rounds, without joining paths.'
    run_jobs(res, [], [('indent', 'Lines', k) for k in range(1, ROUNDS + 1)])


# where a short form could undo what the long form guarantees
SHORT = ['r_parse', 'r_parse_errstr', 'r_parse_errstr_with_indent']
READ = ['r_syntax', 'r_syntax_errstr']


def eq_check(res):
    res.explanation = ENGINE
    run_jobs(res, [('eq', r) for r in sorted(res.prog.roots) if r[:2] in ('q_', 'k_')])


def opt_check(res):
    res.explanation = ENGINE
    from optmon import parts
    run_jobs(res, [('opt', x) for x in parts(res.prog)])


def ref_check(res):
    res.explanation = ENGINE
    from refmon import parts
    run_jobs(res, [('rule', 'Node'), ('top', 'r_parse_with_indent')] + [('ref', x) for x in parts(res.prog)])


def gram_check(res):
    res.explanation = ENGINE
    run_jobs(res, [('wrap', 'r_syntax')], [('gram', '')])


def conv_check(res):
    res.explanation = ENGINE
    from convmon import shapes
    n = len(shapes())
    run_jobs(res, [('wrap', 'r_syntax')] if res.pid == 'C19' else [], [('conv', (i, min(n, i + 30))) for i in range(0, n, 30)] + ([('gram', '')] if res.pid == 'C18' else []))


def search_check(find):
    def go(res):
        res.explanation = ENGINE
        from searchmon import parts
        run_jobs(res, [('search', x) for x in parts(res.prog) if (x.startswith('s_for_') or x == 's_new') == find])
    return go


def json_check(res):
    res.explanation = ENGINE
    run_jobs(res, [('json', 'r_json_write_string'), ('json', 'r_json_write')])


def cursor_check(res):
    res.explanation = ENGINE
    from cursormon import parts
    run_jobs(res, [('cursor', x) for x in parts(res.prog)])


def wrap_check(res):
    res.explanation = ENGINE
    from wrapmon import ROOTS
    run_jobs(res, [('wrap', x) for x in ROOTS])


def err_check(res):
    res.explanation = ENGINE
    from errmon import KINDS, THIRD, EXACT, error_kinds
    errs = error_kinds(res.prog)
    specs = [('err', ('r_err_write_msg', None, None, None), EXACT)] + [('err', ('r_err_write', None, None, x), EXACT) for x in sorted(errs, key=lambda x: x != 'ExpectedTag')]
    specs += [('err', ('r_err_write', 3, x, 'ExpectedTag'), EXACT + 1) for x in THIRD]
    specs += [('err', a) for k in reversed(KINDS) for a in (('r_err_write_msg', 1, k, None), ('r_err_write', 1, k, errs[0]))]
    run_jobs(res, [('wrap', x) for x in SHORT[1:] + READ[1:]], specs + [('err', 'r_display'), ('err', 'r_err_new'), ('err', 'r_display', ROUNDS), ('err', 'r_err_new', ROUNDS)])


def eff_check(res):
    res.explanation = ('Walk over the call graph of the type-checked program (MIR) from every entry point, through closures and functions handed on as values; '
                       'every call, static and thread-local met is classified, and every public type is searched for parts that can change behind a shared reference.')
    res.assumptions = [TRUST[0], 'std functions whose body is not in the dump have the effects their documentation names']
    run_jobs(res, [], [('eff', '')])


def everything(res):
    res.explanation = ENGINE
    from optmon import parts as opts
    from refmon import parts as refs
    from searchmon import parts as searches
    from cursormon import parts as cursors
    from convmon import shapes
    specs = [('rule', r) for r in rules_of(res.prog)] + [('top', 'r_parse_with_indent')] + [('json', 'r_json_write'), ('json', 'r_json_write_string')]
    specs += [('opt', x) for x in opts(res.prog)] + [('ref', x) for x in refs(res.prog) if not x.startswith('rule:')]
    specs += [('search', x) for x in searches(res.prog)] + [('cursor', x) for x in cursors(res.prog)]
    n = len(shapes())
    return specs, [('conv', (i, min(n, i + 30))) for i in range(0, n, 30)]


def panic_check(res):
    specs, conv = everything(res)
    run_jobs(res, [('panic', x) for x in specs], [('panic', x) for x in conv])


def end_check(res):
    specs, conv = everything(res)
    run_jobs(res, [('ends', x) for x in specs + [('err', 'r_err_new')]], [('ends', x) for x in conv] + [('rule', x, ROUNDS) for x in ('Repeat', 'SeparateBy')])


LEAF = ['Whitespace', 'Tag', 'UntilAny', 'UntilAnyOrWhitespace', 'Text', 'Number']
CHECKS = {
    'C01': rule_check((), ['r_parse_with_indent'], SHORT + ['r_syntax', 'r_load']),
    'C02': rule_check(None, ['r_parse_with_indent'], SHORT),
    'C03': rule_check(None, ['r_parse_with_indent']),
    'C04': rule_check(['Node']),
    'C05': rule_check(None, ['r_parse_with_indent'], SHORT),
    'C06': rule_check(['Select', 'FastSelect']),
    'C07': rule_check(['Sequence']),
    'C08': rule_check(['Repeat', 'SeparateBy', 'Lines']),
    'C09': rule_check(['Optional', 'Not']),
    'C10': rule_check(LEAF),
    'C11': end_check,
    'C12': rule_check(None, ['r_parse_with_indent'], SHORT + READ),
    'C27': eq_check,
    'C14': opt_check,
    'C15': ref_check,
    'C16': gram_check,
    'C17': conv_check,
    'C18': conv_check,
    'C19': conv_check,
    'C20': cursor_check,
    'C21': json_check,
    'C22': err_check,
    'C23': search_check(False),
    'C24': search_check(True),
    'C25': eff_check,
    'C26': panic_check,
    'C28': wrap_check,
    'C31': indent_check,
    'C13': rule_check(None, ['r_parse_with_indent'], SHORT),
}


def run(pid, prog, tier):
    res = Result(pid)
    res.prog = prog
    if tier == 'thorough':
        global ROUNDS
        from interp import Engine
        ROUNDS, Engine.UNROLL_BLOCKS = 9, 150000
    CHECKS[pid](res)
    if not res.slots and not res.undecided:
        res.undecided.append('no obligation was reached')
    return res
