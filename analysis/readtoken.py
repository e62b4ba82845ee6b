"""Contracts for the scanning functions of the read_token crate whose loops carry no position
state beyond their result: a result range inside the remaining text, named by its inputs."""
from dom import *
from interp import GiveUp
from stdmodel import as_str, skey, C


def _rng(c, ty, off, n):
    t = c.e.p.types[ty]
    f = [None] * len(t['variants'][0]['fields'])
    for i, (nm, fty) in enumerate(t['variants'][0]['fields']):
        f[i] = I(off) if nm == 'offset' else I(n) if nm == 'length' else A(fty, 0, ())
    return A(ty, 0, f)


def _self(c):
    v = c.get(c.a[0])
    if isinstance(v, S):
        v = c.e.expand(c.st, v)
    t = c.e.p.types[v.ty]
    d = {nm: v.f[i] for i, (nm, _) in enumerate(t['variants'][0]['fields'])}
    return as_str(c, d['src']), d['offset'].l


def _flag(c, p):
    v = c.get(p)
    if isinstance(v, S):
        v = c.e.expand(c.st, v)
    return v.f[0]


def until(kind):
    def f(c):
        s, off = _self(c)
        u = atom((kind, skey(s), skey(as_str(c, c.a[1]))))
        c.st.assume(('ge', s.hi - s.lo - u))
        c.e.bnd(c.st, s.t, s.lo + u)
        els = c.e.p.types[c.rty]['els']
        return A(c.rty, 0, [_rng(c, els[0], off, u), c.e.mk((kind + '_hit', u), els[1])])
    return f


def whitespace(c):
    s, off = _self(c)
    u = atom(('whitespace', skey(s)))
    c.st.assume(('ge', s.hi - s.lo - u))
    c.e.bnd(c.st, s.t, s.lo + u)
    return _rng(c, c.rty, off, u)


def number(c):
    s, off = _self(c)
    fl = _flag(c, c.a[1])
    if not c.st.truth(('p', ('is_number', skey(s), fl))):
        return c.none()
    u = atom(('number', skey(s), fl))
    c.st.assume(('ge', u - 1))
    c.st.assume(('ge', s.hi - s.lo - u))
    c.e.bnd(c.st, s.t, s.lo + u)
    ty = c.e.p.types[c.rty]['variants'][1]['fields'][0][1]
    return c.some(_rng(c, ty, off, u))


def parse_number(c):
    s, off = _self(c)
    k = (skey(s), _flag(c, c.a[1]), c.a[2].l)
    if c.e.track_panics:
        c.e.panic_note(c.st, c.st.frames[-1], 'exponent', 'sure', c.span, 'an exponent below 2^64')
    vs = c.e.p.types[c.rty]['variants']
    if c.st.truth(('p', ('parse_number_ok',) + k)):
        return c.var('Ok', S(('parse_number',) + k, vs[0]['fields'][0][1]))
    return c.var('Err', S(('parse_number_err',) + k, vs[1]['fields'][0][1]))


def string(c):
    s, off = _self(c)
    if not c.st.truth(('p', ('is_string', skey(s)))):
        return c.none()
    u = atom(('string', skey(s)))
    c.st.assume(('ge', u - 2))
    c.st.assume(('ge', s.hi - s.lo - u))
    c.e.bnd(c.st, s.t, s.lo + u)
    ty = c.e.p.types[c.rty]['variants'][1]['fields'][0][1]
    return c.some(_rng(c, ty, off, u))


def parse_string(c):
    s, off = _self(c)
    k = (skey(s), c.a[1].l)
    vs = c.e.p.types[c.rty]['variants']
    if c.st.truth(('p', ('parse_string_ok',) + k)):
        return c.var('Ok', S(('parse_string',) + k, vs[0]['fields'][0][1]))
    return c.var('Err', S(('parse_string_err',) + k, vs[1]['fields'][0][1]))


def ended_with_newline(c):
    """Either answer; an empty range holds no line break."""
    if c.e.choose(c.st, 2) == 0:
        return B(False)
    r = c.a[1]
    if isinstance(r, S):
        r = c.e.expand(c.st, r)
    t = c.e.p.types[r.ty]
    i = [nm for nm, _ in t['variants'][0]['fields']].index('length')
    c.st.assume(('ge', r.f[i].l - 1))
    return B(True)


def blank(c):
    """Any amount of blank text, at the end of the text or before something else. What read_token counts is one
    past the start of the last blank character: right if that has one byte."""
    s, off = _self(c)
    if c.e.track_panics:
        c.e.panic_note(c.st, c.st.frames[-1], 'blank lines', 'sure', c.span, 'a blank character of one byte')
    n = atom(c.e.fresh('blank'))
    c.st.assume(('ge', s.hi - s.lo - n))
    c.e.bnd(c.st, s.t, s.lo + n)
    if c.e.choose(c.st, 2) == 0:
        return A(c.rty, 0, [B(True), I(n)])
    c.st.assume(('ge', s.hi - s.lo - n - 1))
    return A(c.rty, 0, [B(False), I(n)])


TABLE = {'until_any': until('until_any'), 'until_any_or_whitespace': until('until_any_or_ws'), 'whitespace': whitespace,
         'number': number, 'parse_number': parse_number, 'string': string, 'parse_string': parse_string,
         'ended_with_newline': ended_with_newline}


def install(prog):
    out = {}
    for f in prog.fns:
        if f['crate'] == 'read_token':
            last = f['def'].split('::')[-1]
            if last in TABLE and 'ReadToken' in f['def']:
                out[f['name']] = TABLE[last]
        elif f['def'] == 'roots::models::blank':
            out[f['name']] = blank
        elif f['def'] == 'roots::models::ended':
            out[f['name']] = ended_with_newline
    return out
