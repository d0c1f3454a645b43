"""Constant propagation through string operations: a text that is partly literal (a directive, a separator) and partly
unknown (any name) is put in the place of an unknown text, and operations that only look at the literal part are worked out."""
from engine import *
import engine

NPOS = mk('npos')


def free(name, chars):
    """any text without these characters"""
    return mk('sym', name, 'free', chars)


def lit(t): return t.a[0] if isinstance(t, T) and t.op == 's' else chr(t.a[0]) if isinstance(t, T) and t.op in ('int', 'chr') and 0 <= t.a[0] < 128 else None


def without(p, chars): return p.op == 'sym' and len(p.a) == 3 and p.a[1] == 'free' and set(chars) <= set(p.a[2])


def textual(x): return x.op in ('s', 'cat') or x.op == 'sym' and len(x.a) == 3


def total(ps):
    r = mk('int', 0)
    for p in ps: r = add(r, mk('int', len(p.a[0])) if p.op == 's' else size(p))
    return r


def place(x, pos):
    """(number of pieces before, offset in the next piece) of a position in x, or None"""
    ps = engine.pieces(x)
    if pos.op == 'last' or pos.op == 'npos': return None
    c, m = lin_of(pos)
    for i in range(len(ps) + 1):
        c0, m0 = lin_of(total(ps[:i]))
        if m0 != m: continue
        k = c - c0
        if k < 0: return None
        if k == 0 and i == len(ps): return i, 0
        while i < len(ps) and ps[i].op == 's':
            if k <= len(ps[i].a[0]): return i, k
            k -= len(ps[i].a[0])
            i += 1
        if k == 0: return i, 0
        return None
    return None


def cut(x, a, b):
    """the part of x between two places"""
    ps = list(engine.pieces(x))
    (i, o), (j, q) = a, b
    if (i, o) > (j, q): return EMPTY if False else None
    if i == j: return mk('s', ps[i].a[0][o:q]) if i < len(ps) and ps[i].op == 's' else EMPTY
    out = [mk('s', ps[i].a[0][o:]) if ps[i].op == 's' else ps[i]] + ps[i + 1:j]
    if q and j < len(ps): out.append(mk('s', ps[j].a[0][:q]))
    return cat(*out)


def search(x, l, start, one):
    """the position of the first occurrence of l (or, if one, of one of its characters) from place start on; None: not known"""
    ps = engine.pieces(x)
    i, o = start
    while i < len(ps):
        p = ps[i]
        if p.op == 's':
            t = p.a[0]
            if one: k = min([t.find(ch, o) for ch in l if t.find(ch, o) >= 0], default=-1)
            else: k = t.find(l, o)
            if k >= 0: return add(total(ps[:i]), mk('int', k))
        elif not without(p, l): return None
        i, o = i + 1, 0
    return NPOS


def rsearch(x, l, one):
    ps = engine.pieces(x)
    for i in reversed(range(len(ps))):
        p = ps[i]
        if p.op == 's':
            t = p.a[0]
            k = max([t.rfind(ch) for ch in l], default=-1) if one else t.rfind(l)
            if k >= 0: return add(total(ps[:i]), mk('int', k))
        elif not without(p, l): return None
    return NPOS


def accepts(g, only, never):
    """whether the test g holds of a character: known to be `only`, or known not to be among `never`"""
    h = mk('hole')

    def val(a):
        a = atom_term(a) if not isinstance(a, T) else a
        ch = None
        if a.op == 'eq' and h in a.a:
            o = a.a[1] if a.a[0] is h else a.a[0]
            if o.op in ('chr', 'int'): ch, neg = chr(o.a[0]), False
        elif a.op in ('nn', 'hole', 'tob') or a is h: ch, neg = '\0', True
        if ch is None: return None
        if only is not None: r = ch in only
        elif ch in never: r = False
        else: return None
        return not r if neg else r
    r = engine.subst_b(g, lambda a: {True: TRUE, False: FALSE, None: atom(a)}[val(a)])
    return True if r is TRUE else False if r is FALSE else None


def spread_ite(t, args, make):
    for j, x in enumerate(args):
        if isinstance(x, T) and x.op == 'ite':
            return ite(x.a[0], asv(fold(make(args[:j] + (x.a[1],) + args[j + 1:]))), asv(fold(make(args[:j] + (x.a[2],) + args[j + 1:]))))
    return None


def fold(t):
    if isinstance(t, B): return t
    op = t.op
    if op == 'tostr' and t.a[0].op == 'int': return mk('s', str(t.a[0].a[0]))
    if op == 'chop':
        r = engine.chop(t.a[0])
        return t if r is None else r
    if op in ('at', 'ne', 'size') and t.a[0].op == 'chr': return fold(engine.rebuild(op, (mk('s', chr(t.a[0].a[0])),) + t.a[1:]))
    if op == 'call' and t.a[0] == 'compare' and all(x.op in ('s', 'int') for x in t.a[1]) and len(t.a[1]) in (2, 4):
        x, y = t.a[1][0].a[0], t.a[1][-1].a[0]
        if len(t.a[1]) == 4: x = x[t.a[1][1].a[0]:][:t.a[1][2].a[0]]
        return mk('int', (x > y) - (x < y))
    if op == 'at':
        x, i = t.a
        r = spread_ite(t, t.a, lambda a: mk('at', *a))
        if r is not None: return r
        if textual(x):
            ps = engine.pieces(x)
            if i.op == 'last':
                if ps and ps[-1].op == 's' and ps[-1].a[0]: return mk('chr', ord(ps[-1].a[0][-1]))
                return t
            w = place(x, i)
            if w and w[0] < len(ps) and ps[w[0]].op == 's' and w[1] < len(ps[w[0]].a[0]): return mk('chr', ord(ps[w[0]].a[0][w[1]]))
        return t
    if op == 'scanlen':
        x, i, g = t.a
        w = place(x, i) if textual(x) else None
        if isinstance(g, T) and g.op == 'b': g = g.a[0]
        if w is None or not isinstance(g, B): return t
        ps, (j, o), n = engine.pieces(x), w, mk('int', 0)
        while j < len(ps):
            p = ps[j]
            if p.op == 's':
                for k in range(o, len(p.a[0])):
                    r = accepts(g, {p.a[0][k]}, None)
                    if r is None: return t
                    if not r: return n
                    n = add(n, mk('int', 1))
            else:
                r = accepts(g, None, p.a[2] if p.op == 'sym' and len(p.a) == 3 else '')
                if r is not True: return t
                n = add(n, size(p))
            j, o = j + 1, 0
        return t
    if op in ('sfind', 'srfind'):
        x, n, p = t.a
        r = spread_ite(t, t.a, lambda a: mk(op, *a))
        if r is not None: return r
        l = lit(n)
        if l and textual(x):
            if op == 'sfind':
                w = place(x, p)
                r = search(x, l, w, False) if w else None
            else: r = rsearch(x, l, False) if p.op == 'npos' else None
            if r is not None: return r
        return t
    if op == 'substr?':
        x, n = t.a
        l = lit(n)
        if l and textual(x):
            r = search(x, l, (0, 0), False)
            if r is NPOS: return FALSE
            if r is not None: return TRUE
            if any(p.op == 's' and l in p.a[0] for p in engine.pieces(x)): return TRUE
        return t
    if op == 'eq' and NPOS in t.a:
        y = t.a[1] if t.a[0] is NPOS else t.a[0]
        if y.op == 'int' or y.op in ('size', 'lin') and not any(z.op not in ('size', 'sym', 'lin', 's', 'cat') for z in subterms(y)): return FALSE
        return t
    if op == 'ge0':
        c, m = lin_of(t.a[0])
        if NPOS in m:
            if m[NPOS] > 0 and all(z is NPOS or z.op == 'size' for z in m): return TRUE
            if m[NPOS] < 0 and all(z is NPOS or z.op == 'size' for z in m): return FALSE
        elif c >= 0 and all(z.op == 'size' and k > 0 for z, k in m.items()): return TRUE
        elif c < 0 and all(z.op == 'size' and k < 0 for z, k in m.items()): return FALSE
        return t
    if op == 'bin' and all(x.op in ('int', 'chr') for x in t.a[1:]):
        x, y = t.a[1].a[0], t.a[2].a[0]
        if t.a[0] in '&|^': return mk('int', {'&': x & y, '|': x | y, '^': x ^ y}[t.a[0]])
        return t
    if op == 'nn' and t.a[0].op in ('int', 'chr'): return engine.tob(t.a[0])
    if op == 'call':
        f, a = t.a
        if f in CTYPE and len(a) == 1 and a[0].op in ('int', 'chr') and 0 <= a[0].a[0] < 256: return TRUE if CTYPE[f](chr(a[0].a[0])) else FALSE
        if f == 'utohexstr' and a and a[0].op in ('int', 'chr') and all(x.op in ('int', 'b') for x in a[1:]):
            h = '%X' % a[0].a[0]
            return mk('s', h.lower() if len(a) > 1 and engine.tob(a[1]) is TRUE else h)
        if f in ('substr', 'pop_back', 'remove_all', 'erase') or f.startswith('find_'):
            r = spread_ite(t, a, lambda b: mk('call', f, b))
            if r is not None: return r
        if f == 'substr' and len(a) == 3:
            x, b, n = a
            if b.op == 'int' and b.a[0] == 0 and n.op == 'npos': return x
            if textual(x) or x.op == 'sym':
                ps = engine.pieces(x)
                w = place(x, b)
                if w is None: return t
                e = (len(ps), 0) if n.op == 'npos' else place(x, add(b, n))
                if e is None and n.op == 'int' and all(p.op == 's' for p in ps): e = (len(ps), 0)
                if e is not None:
                    r = cut(x, w, e)
                    if r is not None: return r
            return t
        if f == 'pop_back' and len(a) == 1:
            p = list(engine.pieces(a[0]))
            if p and p[-1].op == 's' and p[-1].a[0]: return cat(*p[:-1], mk('s', p[-1].a[0][:-1]))
            return t
        if f == 'remove_all' and len(a) == 2:
            x, c = a[0], lit(a[1])
            if c is not None and textual(x):
                return cat(*[mk('s', p.a[0].replace(c, '')) if p.op == 's' else p if without(p, c) else mk('call', f, (p, a[1])) for p in engine.pieces(x)])
            return t
        if f in ('find_first_of', 'find_last_of') and len(a) >= 2 and textual(a[0]):
            l = lit(a[1])
            if l:
                if f == 'find_last_of': r = rsearch(a[0], l, True) if len(a) == 2 or a[2].op == 'npos' else None
                else:
                    w = place(a[0], a[2]) if len(a) > 2 else (0, 0)
                    r = search(a[0], l, w, True) if w else None
                if r is not None: return r
            return t
        if f in ('find_first_not_of', 'find_last_not_of') and len(a) >= 2 and textual(a[0]):
            l = lit(a[1])
            ps = engine.pieces(a[0])
            if l and (len(a) == 2 or a[2].op == 'npos' or f == 'find_first_not_of' and a[2] is mk('int', 0)):
                for i in range(len(ps)) if f == 'find_first_not_of' else reversed(range(len(ps))):
                    p = ps[i]
                    if p.op != 's': return t
                    ks = [k for k, ch in enumerate(p.a[0]) if ch not in l]
                    if ks: return add(total(ps[:i]), mk('int', ks[0] if f == 'find_first_not_of' else ks[-1]))
                return NPOS
            return t
    return t


import string as _s
CTYPE = {'isalnum': lambda c: c in _s.ascii_letters + _s.digits, 'isalpha': lambda c: c in _s.ascii_letters, 'isdigit': lambda c: c in _s.digits, 'isspace': lambda c: c in ' \t\n\r\v\f',
         'isupper': lambda c: c in _s.ascii_uppercase, 'islower': lambda c: c in _s.ascii_lowercase, 'isprint': lambda c: ' ' <= c <= '~', 'isgraph': lambda c: '!' <= c <= '~', 'ispunct': lambda c: c in _s.punctuation, 'isxdigit': lambda c: c in _s.hexdigits}


def tb(x): return x if isinstance(x, B) else engine.tob_atom(x)


def asv(x): return mk('b', x) if isinstance(x, B) else x


def unroll(t, R, n, m={}):
    """t when the sequence R has n elements, and the unknown texts of m are as given"""
    L = engine.rng_list(R)
    m = {**m, engine.size(L): mk('int', n)}
    return put(t, m, {R: n, L: n})


def put(t, m, loops={}):
    """t with the unknown texts of m replaced, and what then is known worked out"""
    memo = {}

    def go(t):
        if isinstance(t, tuple): return tuple(go(x) for x in t)
        if not isinstance(t, (T, B)) or t is TRUE or t is FALSE: return t
        r = memo.get(t)
        if r is not None: return r
        if isinstance(t, B): r = engine.subst_b(t, lambda a: engine.tob_atom(go(a)))
        elif t in m: r = m[t]
        elif t.op == 'ite':
            c = go(t.a[0])
            r = go(t.a[1]) if c is TRUE else go(t.a[2]) if c is FALSE else engine.ite(c, go(t.a[1]), go(t.a[2]))
        elif t.op == 'ne' and t.a[0] in loops: r = TRUE if loops[t.a[0]] else FALSE
        elif t.op == 'star' and t.a[0] in loops:
            R, d = t.a[0], t.a[1]
            r = go(cat(*[engine.substitute(t.a[2], {engine.position(R, d): mk('int', k), engine.elem(R, d): mk('nth', R, k)}) for k in range(loops[R])]))
        elif t.op == 'star' and t.a[0].op == 'irange' and all(go(x).op == 'int' for x in t.a[0].a[:2]) and 0 <= go(t.a[0].a[1]).a[0] - go(t.a[0].a[0]).a[0] < 20:
            R, d = t.a[0], t.a[1]
            r = go(cat(*[engine.substitute(t.a[2], {engine.elem(R, d): mk('int', k)}) for k in range(go(R.a[0]).a[0], go(R.a[1]).a[0])]))
        elif t.op == 'call' and t.a[0] == 'remove_all' and len(t.a[1]) == 2 and t.a[1][1].op == 'b' and lit(go(t.a[1][0])) is not None:
            # the characters of a known text that are left
            x, c = t.a[1]
            k = {y for y in engine.subterms(c) if y.op == 'elem' and y.a[0].op == 'range' and y.a[0].a[1] is x}
            out = ''
            for ch in lit(go(x)):
                g = put(c.a[0], {**m, **{y: mk('chr', ord(ch)) for y in k}}, loops)
                if g is not TRUE and g is not FALSE: break
                if g is FALSE: out += ch
            else:
                memo[t] = mk('s', out)
                return memo[t]
            r = t
        else:
            a = tuple(go(x) for x in t.a)
            r = engine.rebuild(t.op, a) if a != t.a else t
            if isinstance(r, T) and r.op == 'out' and r.a[0] == 'replace' and r.a[1] == 0 and all(x.op == 's' for x in r.a[2]) and r.a[2][1].a[0]:
                r = mk('s', r.a[2][0].a[0].replace(r.a[2][1].a[0], r.a[2][2].a[0]))
            if isinstance(r, T): r = fold(r)
            elif isinstance(r, B) and engine.single(r): r = tb(fold(atom_term(r.v)))
            elif isinstance(r, B) and engine.single(~r): r = ~tb(fold(atom_term(r.v)))
        memo[t] = r
        return r
    return go(t)
