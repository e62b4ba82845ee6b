"""Effects: what the code reachable from an entry point can read or change besides its arguments.
A walk over the call graph of the dump; the rules look at calls, statics and types."""
import re
from oblig import Book

PID = 'C25'
EFFECTS = [
    ('streams', r'^std::io::(stdio::)?(stdin|stdout|stderr|_print|_eprint|read_to_string|try_set_output_capture)$|^<&?std::io::(stdio::)?Std(in|out|err)\b'),
    ('files and network', r'^<?&?std::(fs|net|os)::|^std::path::Path::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|read_dir|read_link|canonicalize)$'),
    ('environment', r'^std::env::'),
    ('clock', r'^std::time::(Instant|SystemTime)::(now|elapsed)$'),
    ('threads', r'^std::thread::(?!LocalKey|local)'),
    ('memory that outlasts the call', r'^std::thread::(LocalKey|local)'),
    ('processes', r'^std::process::|^std::panic::(set_hook|take_hook)|^std::alloc::set_alloc_error_hook'),
    ('chance', r'RandomState|^std::collections::(hash::(map|set)::)?Hash(Map|Set)::<[^>]*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if)$|'
               r"^<&?('a )?(mut )?std::collections::Hash(Map|Set)<.*IntoIterator"),
]
EFFECTS = [(n, re.compile(r)) for n, r in EFFECTS]
ALLOWED = {'r_load': ('files and network', 'streams'), 'r_json_print': ('streams',), 'r_stderr_unwrap': ('streams',), 'r_err_error': ('streams',)}
ONCE = re.compile(r'^(lazy_static::lazy::Lazy|std::sync::(lazy_lock::)?LazyLock|std::sync::(once_lock::)?OnceLock|core::lazy::|once_cell::sync::Lazy)')
SHARED = re.compile(r'^std::(sync::Arc|rc::Rc)$|^alloc::(sync::Arc|rc::Rc)$')


def inside(p, ty, seen, path=()):
    """Types (with how they are reached) that can change behind a shared reference, in a value of type ty."""
    if ty in seen:
        return
    seen.add(ty)
    t = p.types[ty]
    k = t['k']
    if k == 'adt':
        name = t['name']
        if name.endswith('UnsafeCell'):
            yield path
            return
        if SHARED.match(name) or name in ('std::vec::Vec', 'std::boxed::Box'):
            for a in t['args']:
                yield from inside(p, a, seen, path + (t['s'],))
            return
        for v in t['variants']:
            for n, f in v['fields']:
                yield from inside(p, f, seen, path + (t['s'],))
    elif k in ('ref', 'ptr'):
        yield from inside(p, t['to'], seen, path)
    elif k in ('slice', 'array'):
        yield from inside(p, t['of'], seen, path)
    elif k == 'tuple':
        for x in t['els']:
            yield from inside(p, x, seen, path)


def adts(p, ty, seen):
    if ty in seen:
        return
    seen.add(ty)
    t = p.types[ty]
    if t['k'] == 'adt':
        yield t
        for a in t['args']:
            if isinstance(a, int):
                yield from adts(p, a, seen)
        for v in t['variants']:
            for n, f in v['fields']:
                yield from adts(p, f, seen)
    for x in ([t.get('to')] if t['k'] in ('ref', 'ptr') else [t.get('of')] if t['k'] in ('slice', 'array') else t.get('els', [])):
        if x is not None:
            yield from adts(p, x, seen)


class Effects:
    def __init__(self, prog):
        self.p = prog
        self.book = Book()
        self.sites = {}
        self.seen = set()
        self.calls = 0

    def parts(self, fid):
        """(functions it may run, [(span, kind, text)] effects of its own)."""
        if fid in self.sites:
            return self.sites[fid]
        p = self.p
        f = p.fns[fid]
        to, own = {}, []

        def types(ty):
            t = p.types[ty]
            if 'fn' in t:
                to.setdefault(t['fn'], '')
            elif t['k'] == 'fndef' and isinstance(t.get('callee'), dict) and 'inst' in t['callee']:
                to.setdefault(t['callee']['inst'], '')

        def walk(x, span):
            if isinstance(x, dict):
                if 'inst' in x and x['inst'] is not None:
                    to.setdefault(x['inst'], span)
                    self.calls += 1
                    d = p.fns[x['inst']]['def']
                    if d != x.get('def'):
                        self.name(d, span, own)
                if 'def' in x:
                    self.name(x['def'], span, own)
                if 'fnp' in x:
                    to.setdefault(x['fnp'], span)
                if 'static' in x:
                    self.static(x, span, own)
                for v in x.values():
                    walk(v, span)
            elif isinstance(x, list):
                if x and x[0] == 'tls':
                    own.append((span, 'memory that outlasts the call', 'the thread-local %s' % x[1]))
                if len(x) == 2 and isinstance(x[1], dict) and 'zst' in x[1]:
                    types(x[1]['zst'])
                for v in x:
                    walk(v, span)

        for stmts, term, span in f.get('blocks') or []:
            for s in stmts:
                walk(s, s[2] if len(s) > 2 else span)
            walk(term, span)
        for ty in f.get('locals') or []:
            types(ty)
        self.sites[fid] = to, own
        return self.sites[fid]

    def name(self, d, span, own):
        for n, r in EFFECTS:
            if r.search(d):
                own.append((span, n, d))

    def static(self, x, span, own):
        p = self.p
        t = p.types[x['t']]
        nm = x['static'].split('::')[-1]
        if t['k'] == 'ptr' and t['mut'] or t['k'] == 'ref' and t['mut']:
            own.append((span, 'memory that outlasts the call', 'the static mut %s' % nm))
            return
        to = t.get('to')
        if to is None:
            return
        a = p.types[to]
        if a['k'] == 'adt' and ONCE.match(a['name']):
            # Computed once and never changed: what it holds must not change either.
            for y in a['args'][:1]:
                for path in inside(p, y, set()):
                    own.append((span, 'memory that outlasts the call', 'the static %s: %s' % (nm, ' > '.join(path))))
            return
        for path in inside(p, to, set()):
            own.append((span, 'memory that outlasts the call', 'the static %s: %s' % (nm, ' > '.join(path[-1:]))))

    def reach(self, root):
        """Functions reachable from root, with the call each was first reached from."""
        come = {root: None}
        todo = [root]
        while todo:
            f = todo.pop()
            for g, span in self.parts(f)[0].items():
                if g not in come:
                    come[g] = (f, span)
                    todo.append(g)
        return come

    def chain(self, come, f):
        out = []
        while f is not None:
            out.append(self.p.fns[f]['name'])
            f = come[f][0] if come[f] else None
        return ' <- '.join(out[:8])

    def once(self, fid, own, come):
        """get_or_init with a closure that looks at the call: what the first call left decides the others."""
        p = self.p
        f = p.fns[fid]
        for stmts, term, span in f.get('blocks') or []:
            if term[0] == 'call' and isinstance(term[1], dict) and re.search(r'OnceLock.*::(get_or_init|get_or_try_init|set)$|OnceCell.*::(get_or_init|set)$', term[1]['def']):
                for a in term[5][1:]:
                    t = p.types[a]
                    if t['k'] == 'closure' and t.get('upvars') or t['k'] not in ('closure', 'fndef'):
                        own.append((span, 'memory that outlasts the call', term[1]['def']))

    def run(self, roots):
        p = self.p
        R1 = 'reads and changes nothing besides its arguments'
        for r in roots:
            come = self.reach(p.roots[r])
            self.seen |= set(come)
            for f in sorted(come):
                own = list(self.parts(f)[1])
                self.once(f, own, come)
                where = p.fns[f]['name']
                bad = False
                local = p.fns[f]['crate'].startswith('piston_meta') or p.fns[f]['crate'] == 'read_token'
                for span, kind, what in own:
                    if kind in ALLOWED.get(r, ()):
                        continue
                    if not local and kind not in ('streams', 'clock', 'environment', 'files and network', 'memory that outlasts the call', 'threads', 'processes', 'chance'):
                        continue
                    self.book.record(PID, R1, where, False, True, '%s: %s at %s (reached from %s: %s)' % (kind, what, span, r, self.chain(come, f)))
                    bad = True
                if not bad and local:
                    self.book.record(PID, R1, where, True, True, '')
        R2 = 'values handed to many threads can not change behind a shared reference'
        names = [('piston_meta::Syntax', 'a syntax'), ('piston_meta::MetaData', 'data'), ('piston_meta::Rule', 'a rule'), ('piston_meta::IndentSettings', 'settings'),
                 ('piston_meta::ParseError', 'an error')]
        for ty, t in enumerate(p.types):
            if t['k'] != 'adt' or not t['crate'].startswith('piston_meta'):
                continue
            hit = list(inside(p, ty, set()))
            rc = [x['s'] for x in adts(p, ty, set()) if x['name'].endswith('rc::Rc')]
            if hit or rc:
                self.book.record(PID, R2, t['s'], False, True, 'contains %s' % (' > '.join(hit[0]) if hit else rc[0]))
            else:
                self.book.record(PID, R2, t['s'], True, True, '')
        return self


def run_effects(prog):
    e = Effects(prog)
    return e.run(sorted(prog.roots))


if __name__ == '__main__':
    import sys
    from mir import Program
    p = Program(sys.argv[1])
    e = run_effects(p)
    print(len(e.seen), e.calls)
    for k, s in sorted(e.book.d.items()):
        if s['bad'] or s['open']:
            print('   ', k[1:], s['ok'], s['bad'], s['open'], (s['ex'] or (s['why'],))[0][:200])
    print(len(e.book.d))
