"""Loads the compiler's MIR dump and offers the control-flow facts the interpreter needs."""
import json


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.fns = d['fns']
        self.roots = {n.split('::')[-1]: i for n, i in d['roots']}
        self.inventory = d['inventory']
        self.statics = d['statics']
        self.by_name = {}
        for f in self.fns:
            self.by_name.setdefault(f['name'], f)
        self._loops = {}
        self._live = {}
        self._tyix = {}
        for i, t in enumerate(self.types):
            self._tyix.setdefault(self.tstr(i), i)

    # --- types ---------------------------------------------------------------------------
    def tstr(self, i):
        t = self.types[i]
        k = t['k']
        if k in ('adt', 'fndef', 'fnptr', 'closure', 'dyn', 'other'):
            return t['s']
        if k == 'int':
            return ('i' if t['signed'] else 'u') + str(t['bits'])
        if k == 'tuple':
            return '(' + ','.join(self.tstr(x) for x in t['els']) + ')'
        if k in ('ref', 'ptr'):
            return ('&' if k == 'ref' else '*') + ('mut ' if t['mut'] else '') + self.tstr(t['to'])
        if k in ('slice',):
            return '[' + self.tstr(t['of']) + ']'
        if k == 'array':
            return '[%s;%s]' % (self.tstr(t['of']), t['len'])
        return k

    def ty(self, i):
        return self.types[i]

    def find_type(self, s):
        return self._tyix.get(s)

    def adt_short(self, i):
        t = self.types[i]
        return t['name'].split('::')[-1] if t['k'] == 'adt' else None

    def variant_index(self, i, name):
        for n, v in enumerate(self.types[i]['variants']):
            if v['name'] == name:
                return n
        return None

    def field_index(self, i, name, variant=0):
        for n, (fn, _) in enumerate(self.types[i]['variants'][variant]['fields']):
            if fn == name:
                return n
        return None

    # --- control flow --------------------------------------------------------------------
    @staticmethod
    def succs(term):
        k = term[0]
        if k == 'goto':
            return [term[1]]
        if k == 'switch':
            return [t for _, t in term[3]] + [term[4]]
        if k == 'drop':
            return [term[2]]
        if k == 'call':
            return [term[4]] if term[4] is not None else []
        if k == 'assert':
            return [term[4]]
        return []

    def loop_heads(self, fid):
        """Targets of back edges in a depth-first walk: every cycle passes through one."""
        if fid in self._loops:
            return self._loops[fid]
        blocks = self.fns[fid]['blocks']
        heads, color, stack = set(), {}, [(0, iter(self.succs(blocks[0][1])))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                c = color.get(s, 0)
                if c == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succs(blocks[s][1]))))
                    break
                if c == 1:
                    heads.add(s)
            else:
                color[b] = 2
                stack.pop()
        self._loops[fid] = heads
        return heads

    def liveness(self, fid):
        """Live locals at block entry. Locals whose address is taken stay live until StorageDead."""
        if fid in self._live:
            return self._live[fid]
        f = self.fns[fid]
        blocks = f['blocks']
        taken = set()
        use, defs, kill = [], [], []

        def place_uses(p, out):
            out.add(p[0])
            for e in p[1]:
                if e[0] == 'i':
                    out.add(e[1])

        def op_uses(o, out):
            if o[0] in ('c', 'm'):
                place_uses(o[1], out)

        for stmts, term, _ in blocks:
            seq = []
            for s in stmts:
                if s[1][0] == 'dead':
                    seq.append((set(), s[0], True))
                    continue
                pl, rv = s[0], s[1]
                u = set()
                k = rv[0]
                if k in ('ref', 'addr'):
                    place_uses(rv[1], u)
                    if not any(e[0] == 'd' for e in rv[1][1]):
                        taken.add(rv[1][0])
                elif k in ('use', 'cast', 'repeat', 'un'):
                    op_uses(rv[2] if k in ('cast', 'un') else rv[1], u)
                elif k == 'agg':
                    for o in rv[4]:
                        op_uses(o, u)
                elif k in ('bin', 'cbin'):
                    op_uses(rv[2], u)
                    op_uses(rv[3], u)
                elif k in ('discr', 'len'):
                    place_uses(rv[1], u)
                elif k == 'setdiscr':
                    u.add(pl[0])
                d = None
                if pl[1]:
                    place_uses(pl, u)
                elif k != 'setdiscr':
                    d = pl[0]
                seq.append((u, d, False))
            u, d = set(), None
            k = term[0]
            if k == 'switch':
                op_uses(term[1], u)
            elif k == 'assert':
                op_uses(term[1], u)
                for o in term[3][1:]:
                    if isinstance(o, list):
                        op_uses(o, u)
            elif k == 'call':
                if 'op' in term[1]:
                    op_uses(term[1]['op'], u)
                for o in term[2]:
                    op_uses(o, u)
                if term[3][1]:
                    place_uses(term[3], u)
                else:
                    d = term[3][0]
            elif k == 'return':
                u.add(0)
            seq.append((u, d, False))
            g, kl = set(), set()
            for uu, dd, _dead in reversed(seq):
                if dd is not None:
                    g.discard(dd)
                    kl.add(dd)
                g |= uu
            use.append(g)
            kill.append(kl)
        n = len(blocks)
        live = [set() for _ in range(n)]
        preds = [[] for _ in range(n)]
        for i in range(n):
            for s in self.succs(blocks[i][1]):
                preds[s].append(i)
        work = list(range(n))
        while work:
            i = work.pop()
            out = set()
            for s in self.succs(blocks[i][1]):
                out |= live[s]
            new = use[i] | (out - kill[i])
            if new != live[i]:
                live[i] = new
                work.extend(preds[i])
        self._live[fid] = (live, taken)
        return self._live[fid]

    # --- printing ------------------------------------------------------------------------
    def show(self, fid):
        f = self.fns[fid]
        print(f['name'], f['span'], 'argc', f['argc'])
        for i, t in enumerate(f['locals']):
            nm = [n for l, n in f['names'] if l == i]
            print('  _%d: %s %s' % (i, self.tstr(t)[:100], nm))
        for i, (ss, t, sp) in enumerate(f['blocks']):
            print(' bb%d:%s' % (i, ' (loop)' if i in self.loop_heads(fid) else ''))
            for s in ss:
                if s[1][0] != 'dead':
                    print('   ', self.pplace(s[0]), '=', self.prv(s[1]))
            print('   ', self.pterm(t), sp.split('/')[-1])

    def pplace(self, p):
        s = '_%d' % p[0]
        for e in p[1]:
            if e[0] == 'd':
                s = '(*%s)' % s
            elif e[0] == 'f':
                s += '.%d' % e[1]
            elif e[0] == 'v':
                s += '@%d' % e[1]
            elif e[0] == 'i':
                s += '[_%d]' % e[1]
            else:
                s += str(e)
        return s

    def pop(self, o):
        if o[0] in ('c', 'm'):
            return self.pplace(o[1])
        if o[0] == 'k':
            return 'const(%s)' % (json.dumps(o[2])[:60] if o[2] is not None else self.tstr(o[1])[:60])
        return str(o)

    def prv(self, r):
        k = r[0]
        if k in ('ref', 'addr', 'discr', 'len'):
            return k + ' ' + self.pplace(r[1])
        if k == 'use':
            return self.pop(r[1])
        if k == 'agg':
            return '%s#%s(%s)' % (self.tstr(r[2])[:40] if r[2] is not None else r[1], r[3], ', '.join(self.pop(o) for o in r[4]))
        if k in ('bin', 'cbin'):
            return '%s %s %s' % (self.pop(r[2]), r[1], self.pop(r[3]))
        if k == 'cast':
            return 'cast[%s](%s) as %s' % (r[1], self.pop(r[2]), self.tstr(r[3])[:50])
        if k == 'un':
            return '%s %s' % (r[1], self.pop(r[2]))
        return str(r)

    def pterm(self, t):
        if t[0] == 'call':
            c = t[1]
            nm = self.fns[c['inst']]['name'] if c.get('inst') is not None else str(c)[:80]
            return '%s = %s(%s) -> bb%s' % (self.pplace(t[3]), nm[:120], ', '.join(self.pop(o) for o in t[2]), t[4])
        if t[0] == 'switch':
            return 'switch %s %s else %s' % (self.pop(t[1]), t[3], t[4])
        if t[0] == 'drop':
            return 'drop -> bb%d' % t[2]
        return str(t)[:120]


if __name__ == '__main__':
    import sys
    p = Program(sys.argv[1])
    for i, f in enumerate(p.fns):
        if 'blocks' in f and sys.argv[2] in f['name']:
            p.show(i)
