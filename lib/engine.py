"""Abstract interpreter over the extracted syntax trees.

Every repository function is summarised, without running it, as gated terms: the value of each location is a term whose
alternatives are selected by conditions over calls to the (opaque) Clang API, over the elements of the enumerated
ranges.  Loops become 'star' terms (accumulated text or lists), quantified conditions ('ex') or opaque folds."""
from ir import *
import re

EMPTY = mk('s', '')
NULL = mk('null')
CFG = mk('cfg')
VOID = mk('void')


def sh(fn):
    m = re.search(r'(?:^|::)(operator\b.*)$', fn)
    return m.group(1) if m else fn.rsplit('::', 1)[-1]


# ------------------------------------------------------------------------------------------------ term constructors
def tob(v):
    """Truth value of a term (non-null / non-zero / true)."""
    if isinstance(v, B): return v
    o = v.op
    if o == 'b': return v.a[0]
    if o in ('int', 'chr'): return TRUE if v.a[0] else FALSE
    if o == 'enum': return TRUE if v.a[1] else FALSE
    if o in ('null', 'noentry'): return FALSE
    if o in ('addr', 'lam', 'fref', 'this', 'rec', 'cfg', 'new', 's'): return TRUE
    if o in ('elem',): return TRUE
    if o == 'call' and len(v.a[1]) == 1 and (v.a[0] == 'getCanonicalType' or v.a[0] == 'getDecl' and v.a[1][0].op == 'call' and v.a[1][0].a[0] == 'getCanonicalType'): return TRUE   # a type has a canonical type, and a record or enumeration type a declaration
    if o == 'call' and v.a[0] == 'getDefinition' and len(v.a[1]) == 1: return atom(mk('call', 'hasDefinition', v.a[1]))
    if o == 'size': return nonempty(v.a[0])
    if o == 'countof': return v.a[0]
    if o == 'compare0': return ~prefix(v.a[0], v.a[1])
    if o == 'comparez': return ~suffix(v.a[0], v.a[1])
    if o == 'lin': return ~eq(v, mk('int', 0))
    if o == 'ite':
        c, a, b = v.a
        ats = atoms_of(c)
        ta = TRUE if any(t.op == 'isa' and t.a[1] is a for t in ats) and implies(c, atom([t for t in ats if t.op == 'isa' and t.a[1] is a][0])) else tob(a)
        tb = tob(b)
        return bite(c, ta, tb)
    return atom(mk('nn', v))


def tot(v):
    if isinstance(v, B):
        return mk('b', v)
    return v


def is_str(t): return isinstance(t, T) and t.op == 's'


def pieces(t):
    if isinstance(t, B): return (mk('b', t),)
    if t.op == 'cat': return t.a[0]
    if t is EMPTY or t.op == 'nil': return ()
    return (t,)


def cat(*ts):
    out = []
    for t in ts:
        for p in pieces(t):
            if p.op == 'chr': p = mk('s', chr(p.a[0]) if 0 <= p.a[0] < 0x110000 else '?')
            if p.op == 'ite' and not p.a[0] is None and p.a[1] is EMPTY and p.a[2] is EMPTY: continue
            if out and p.op == 's' and out[-1].op == 's': out[-1] = mk('s', out[-1].a[0] + p.a[0])
            else: out.append(p)
    if not out: return EMPTY
    if len(out) == 1: return out[0]
    return mk('cat', tuple(out))


_itm = {}


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if isinstance(a, B) and isinstance(b, B): return bite(c, a, b)
    if isinstance(a, B) or isinstance(b, B):
        if isinstance(a, B) and b.op in ('int', 'b'): return bite(c, a, tob(b))
        if isinstance(b, B) and a.op in ('int', 'b'): return bite(c, tob(a), b)
        a, b = tot(a), tot(b)
    k = (c, a, b)
    r = _itm.get(k)
    if r is None: r = _itm[k] = _ite(c, a, b)
    return r


def vacuous(p, c):
    """is the piece p of a text or list empty whenever c holds?"""
    if p.op in ('s', 'ite', 'star', 'item', 'kv', 'chr', 'cat', 'nil', 'int', 'null', 'b'): return False
    n = nonempty(p)
    return n is not TRUE and n is not FALSE and (c & n) is FALSE


def _ite(c, a, b):
    while a.op == 'ite':
        if (c & ~a.a[0]) is FALSE: a = a.a[1]
        elif (c & a.a[0]) is FALSE: a = a.a[2]
        else: break
    while b.op == 'ite':
        if (b.a[0] | c) is TRUE: b = b.a[1]
        elif implies(b.a[0], c): b = b.a[2]
        else: break
    if a is b: return a
    if a.op == 'oob': return b
    if b.op == 'oob': return a
    if b.op == 'ite':
        if b.a[2] is a: return ite(~c & b.a[0], b.a[1], a)
        if b.a[1] is a: return ite(c | b.a[0], a, b.a[2])
    if a.op == 'ite':
        if a.a[1] is b: return ite(c & ~a.a[0], a.a[2], b)
        if a.a[2] is b: return ite(c & a.a[0], a.a[1], b)
    if a.op == 'b' and b.op == 'b': return mk('b', bite(c, a.a[0], b.a[0]))
    if a.op in ('cat', 's', 'nil', 'star', 'item', 'kv') or b.op in ('cat', 's', 'nil', 'star', 'item', 'kv'):
        if a.op not in ('null', 'int') and b.op not in ('null', 'int'):
            pa, pb = pieces(a), pieces(b)
            i = 0
            while True:
                while i < len(pa) and i < len(pb) and pa[i] is pb[i]: i += 1
                # a text that is empty in the other case may stand there as well
                if i < len(pa) and vacuous(pa[i], ~c): pb = pb[:i] + (pa[i],) + pb[i:]
                elif i < len(pb) and vacuous(pb[i], c): pa = pa[:i] + (pb[i],) + pa[i:]
                else: break
            j = 0
            while j < len(pa) - i and j < len(pb) - i and pa[-1 - j] is pb[-1 - j]: j += 1
            if i or j:
                m = ite(c, cat(*pa[i:len(pa) - j]), cat(*pb[i:len(pb) - j]))
                return cat(*pa[:i], m, *pa[len(pa) - j:])
    if a.op == 'rec' and b.op == 'rec' and a.a[0] == b.a[0] and [x for x, _ in a.a[1]] == [x for x, _ in b.a[1]]:
        return mk('rec', a.a[0], tuple((n, ite(c, x, y)) for (n, x), (_, y) in zip(a.a[1], b.a[1])))
    if a.op == 'tup' and b.op == 'tup' and len(a.a) == len(b.a):
        return mk('tup', *[ite(c, x, y) for x, y in zip(a.a, b.a)])
    t = c
    while t.hi is not None: t = t.hi
    if t is FALSE: c, a, b = ~c, b, a
    return mk('ite', c, a, b)


_simpm = {}


def simp(v, pc):
    """v under the path condition pc."""
    if pc is TRUE: return v
    if isinstance(v, B):
        if v is TRUE or v is FALSE: return v
        if implies(pc, v): return TRUE
        if (pc & v) is FALSE: return FALSE
        return v
    if not isinstance(v, T) or v.op not in ('ite', 'cat', 'b'): return v
    k = (v, pc)
    r = _simpm.get(k)
    if r is not None: return r
    if v.op == 'ite':
        c, a, b = v.a
        if (pc & ~c) is FALSE: r = simp(a, pc)
        elif (pc & c) is FALSE: r = simp(b, pc)
        else: r = v
    elif v.op == 'b': r = v
    else:
        ps = [simp(p, pc) if p.op == 'ite' else p for p in v.a[0]]
        r = cat(*ps) if any(x is not y for x, y in zip(ps, v.a[0])) else v
    _simpm[k] = r
    return r


def dist(v, f):
    """Apply f below the ite's of v."""
    if isinstance(v, T) and v.op == 'ite': return ite(v.a[0], dist(v.a[1], f), dist(v.a[2], f))
    return f(v)


# --- integers
def lin_of(t):
    """(const, {term: coef})"""
    if isinstance(t, B): t = mk('b', t)
    if t.op in ('int', 'chr'): return t.a[0], {}
    if t.op == 'enum': return t.a[1], {}
    if t.op == 'lin': return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mklin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d: return mk('int', c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1: return t
    return mk('lin', c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def add(a, b, s=1):
    if isinstance(a, T) and a.op == 'ite': return ite(a.a[0], add(a.a[1], b, s), add(a.a[2], b, s))
    if isinstance(b, T) and b.op == 'ite': return ite(b.a[0], add(a, b.a[1], s), add(a, b.a[2], s))
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    d = dict(da)
    for t, k in db.items(): d[t] = d.get(t, 0) + s * k
    return mklin(ca + s * cb, d)


NATURAL = re.compile(r'getNum\w+|num_\w+|size|length|count|\w+_size|size_\w+|getDepth|getIndex|getLineNumber|unsigned( int| long)?\d*|size_t\d*')


def natural(x):
    """a number that cannot be negative"""
    return x.op in ('size', 'idx', 'countof', 'firstidx') or x.op in ('call', 'p') and isinstance(x.a[0], str) and NATURAL.fullmatch(x.a[0]) is not None


def extremum(x):
    """1 when the choice x is the smaller of its two alternatives, -1 when it is the larger, 0 otherwise"""
    c, a, b = x.a
    if not single(c) and not single(~c) or isinstance(a, B) or isinstance(b, B) or a.op == 'ite' or b.op == 'ite': return 0
    k, m = lin_of(add(b, a, -1))
    if not m: return 0
    for z, s in (((k, m), 1), ((-k, {y: -n for y, n in m.items()}), -1)):
        if any(c is ge0(mklin(z[0] + o, z[1])) for o in (0, -1)): return s
    return 0


def ge0(t):
    """t >= 0"""
    if isinstance(t, B): return TRUE
    if t.op == 'ite' and extremum(t):
        p, q = ge0(t.a[1]), ge0(t.a[2])
        return p & q if extremum(t) > 0 else p | q
    if t.op == 'ite': return bite(t.a[0], ge0(t.a[1]), ge0(t.a[2]))
    c, d = lin_of(t)
    if not d: return TRUE if c >= 0 else FALSE
    its = [x for x in d if x.op == 'ite']
    if its:
        x = its[0]
        rest = mklin(c, {y: k for y, k in d.items() if y is not x})
        k = d[x]
        m = extremum(x)
        if m:
            p, q = ge0(addk(rest, x.a[1], k)), ge0(addk(rest, x.a[2], k))
            return p & q if m * k > 0 else p | q
        return bite(x.a[0], ge0(addk(rest, x.a[1], k)), ge0(addk(rest, x.a[2], k)))
    # known facts: idx(R) >= 0, idx(R) <= size(R)-1, size >= 0
    if all(k > 0 and natural(x) for x, k in d.items()) and c >= 0: return TRUE
    if all(k < 0 and natural(x) for x, k in d.items()) and c < 0: return FALSE
    for x, k in d.items():
        if x.op in ('idx', 'firstidx'):
            R = x.a[0]
            if R.op == 'irange': continue
            s = size(rng_list(R))
            if len(d) == 2 and s in d and d[s] == -k:
                # k*(idx - size) + c ; idx - size in [-size, -1]
                if k > 0 and -k + c < 0: return FALSE
                if k < 0 and -k * 1 + c >= 0: return TRUE
    if c < 0 and len(d) == 1:
        (x, k), = d.items()
        if x.op == 'size' and k == 1 and c == -1: return nonempty(x.a[0])
        if x.op == 'countof' and k == 1 and c == -1: return x.a[0]
        if x.op in ('call', 'p') and natural(x) and k == 1 and c == -1: return tob(x)
    if c == 0 and len(d) == 1:
        (x, k), = d.items()
        if x.op == 'size' and k == -1: return ~nonempty(x.a[0])
        if x.op == 'countof' and k == -1: return ~x.a[0]
        if x.op in ('call', 'p') and natural(x) and k == -1: return ~tob(x)
    first = min(d, key=lambda x: x.id)
    if d[first] < 0: return ~ge0(mklin(-c - 1, {x: -k for x, k in d.items()}))
    return atom(mk('ge0', t))


def addk(a, b, k):
    ca, da = lin_of(a)
    if isinstance(b, T) and b.op == 'ite':
        return ite(b.a[0], addk(a, b.a[1], k), addk(a, b.a[2], k))
    cb, db = lin_of(b)
    d = dict(da)
    for t, x in db.items(): d[t] = d.get(t, 0) + k * x
    return mklin(ca + k * cb, d)


def lt(a, b): return ge0(add(add(b, a, -1), mk('int', 1), -1))


def size(t):
    if isinstance(t, T):
        if t.op == 's': return mk('int', len(t.a[0].encode('utf8', 'replace')))
        if t.op == 'ite': return ite(t.a[0], size(t.a[1]), size(t.a[2]))
        if t.op == 'nil': return mk('int', 0)
        if t.op == 'cat' and any(p.op in ('item', 'kv') for p in t.a[0]):
            n = mk('int', 0)
            for p in t.a[0]: n = add(n, mk('int', 1) if p.op in ('item', 'kv') else size(p))
            return n
        if t.op in ('item', 'kv'): return mk('int', 1)
        if t.op == 'star' and t.a[2].op == 'item' and t.a[0].op in ('range', 'fil'): return size(rng_list(t.a[0]))
        if t.op == 'call' and t.a[0] == 'substr' and len(t.a[1]) == 3:
            x, a, n = t.a[1]
            left = add(size(x), a, -1)
            if n.op == 'npos': return left
            if ge0(add(left, n, -1)) is TRUE: return n
        if t.op == 'cat' and any(p.op == 's' for p in t.a[0]):
            n = mk('int', 0)
            for p in t.a[0]: n = add(n, size(p))
            return n
    return mk('size', t)


def nonempty(t):
    if isinstance(t, B): return TRUE
    if t.op == 's': return TRUE if t.a[0] else FALSE
    if t.op in ('nil', 'noentry'): return FALSE
    if t.op in ('item', 'kv', 'chr', 'tostr'): return TRUE
    if t.op == 'tag': return nonempty(t.a[1])
    if t.op == 'ite': return bite(t.a[0], nonempty(t.a[1]), nonempty(t.a[2]))
    if t.op == 'cat':
        r = FALSE
        for p in t.a[0]: r = r | nonempty(p)
        return r
    if t.op == 'star': return ex(t.a[0], t.a[1], nonempty(t.a[2]))
    if t.op == 'call' and t.a[0] == 'substr':
        n = size(t)
        if n.op != 'size': return ge0(add(n, mk('int', 1), -1))
    if t.op == 'fld' and t.a[1].startswith('*'): return TRUE
    return atom(mk('ne', t))


def lastchr(t):
    """the last character of the (non-empty) text t, as a value; None when unknown"""
    ps = pieces(t)
    if not ps: return None
    p = ps[-1]
    if p.op == 's': return mk('chr', ord(p.a[0][-1])) if p.a[0] else None
    if p.op == 'ite':
        a, b = lastchr(cat(*ps[:-1], p.a[1])), lastchr(cat(*ps[:-1], p.a[2]))
        return None if a is None or b is None else ite(p.a[0], a, b)
    if p.op == 'star':
        c = endings(p.a[2])
        if c is None or len(c) != 1: return None
        n = nonempty(p)
        if len(ps) == 1: return mk('chr', ord(list(c)[0]))
        r = lastchr(cat(*ps[:-1]))
        return None if r is None else ite(n, mk('chr', ord(list(c)[0])), r)
    return None


def endings(t):
    """the characters the text t can end with when it is not empty; None when unknown"""
    if t is EMPTY: return set()
    ps = pieces(t)
    p = ps[-1]
    if p.op == 's': return {p.a[0][-1]}
    if p.op == 'ite':
        a, b = endings(cat(*ps[:-1], p.a[1])), endings(cat(*ps[:-1], p.a[2]))
        return None if a is None or b is None else a | b
    return None


def chop(t):
    """the non-empty text t without its last character; None when it cannot be told"""
    ps = pieces(t)
    if not ps: return None
    p, rest = ps[-1], ps[:-1]
    if p.op == 's': return cat(*rest, mk('s', p.a[0][:-1])) if p.a[0] else None
    if p.op == 'ite':
        a, b = chop(cat(*rest, p.a[1])), chop(cat(*rest, p.a[2]))
        return None if a is None or b is None else ite(p.a[0], a, b)
    if p.op == 'star':
        c = endings(p.a[2])
        if c is None or len(c) != 1: return None
        if not rest: return mk('chop', p)
        body = pieces(p.a[2])
        if rest[-1].op == 's' and len(body) > 1 and body[-1].op == 's':
            # s + (x + s)*  is  (s + x)* + s
            x, y = rest[-1].a[0], body[-1].a[0]
            if x and y and x[-1] == y[-1]:
                return cat(*rest[:-1], mk('s', x[:-1]), mk('star', p.a[0], p.a[1], cat(mk('s', x[-1]), *body[:-1], mk('s', y[:-1]))))
        r = chop(cat(*rest))
        return None if r is None else ite(nonempty(p), cat(*rest, mk('chop', p)), r)
    return None


CONSTOPS = ('int', 'chr', 's', 'enum', 'null')


def eq(a, b):
    if isinstance(a, B) or isinstance(b, B):
        x, y = tob(a) if isinstance(a, (B, T)) else a, tob(b)
        return bite(x, y, ~y)
    if a is b: return TRUE
    if a.op == 'b' or b.op == 'b':
        x, y = tob(a), tob(b)
        return bite(x, y, ~y)
    if a.op == 'ite': return bite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == 'ite': return bite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    if a.op == 'end' and b.op in ('tup', 's', 'rec', 'cat') or b.op == 'end' and a.op in ('tup', 's', 'rec', 'cat'): return FALSE
    if a.op in CONSTOPS and b.op not in CONSTOPS: a, b = b, a
    if b is EMPTY: return ~nonempty(a)
    if a.op == b.op == 'call' and {a.a[0], b.a[0]} == {'begin_overridden_methods', 'end_overridden_methods'} and a.a[1] == b.a[1]: return ~tob(mk('call', 'size_overridden_methods', a.a[1]))
    for x, y in ((a, b), (b, a)):
        if x.op == 'call' and x.a[0] == 'substr' and len(x.a[1]) == 3:
            v, o, n = x.a[1]
            if o.op == 'int' and o.a[0] == 0 and n is size(y): return prefix(v, y)
            if n is NPOS and add(o, size(y)) is size(v): return suffix(v, y)
    if b is NULL: return ~tob(a)
    if b.op in ('int', 'lin') or a.op in ('int', 'lin') or (a.op in ('size', 'idx', 'countof') and b.op in ('size', 'idx', 'countof')):
        if b.op == 'int' and b.a[0] == 0:
            if a.op == 'size': return ~nonempty(a.a[0])
            if a.op == 'countof': return ~a.a[0]
            if a.op in ('call', 'p', 'fld', 'cfg'): return ~tob(a)
        if b.op == 'int' and b.a[0] == 1 and a.op == 'countof': return a.a[0]
        if b.op == 'enum' or a.op == 'enum': pass
        elif a.op in ('compare0', 'rfind0') and b.op == 'int' and b.a[0] == 0: return prefix(a.a[0], a.a[1])
        elif a.op == 'sfind' and b.op == 'int' and b.a[0] == 0 and a.a[2].op == 'int' and a.a[2].a[0] == 0: return prefix(a.a[0], a.a[1])
        elif a.op == 'comparez' and b.op == 'int' and b.a[0] == 0: return suffix(a.a[0], a.a[1])
        elif a.op == 'npos' or b.op == 'npos': pass
        else:
            d = add(a, b, -1)
            c, m = lin_of(d)
            if not m: return TRUE if c == 0 else FALSE
            if m[min(m, key=lambda x: x.id)] < 0: d = mklin(-c, {x: -k for x, k in m.items()})
            c, m = lin_of(d)
            if len(m) == 1 and c == 0 and list(m)[0].op == 'idx' and list(m.values())[0] == 1: pass
            # idx(R)+1 == size(R): last element; idx(R) == size(R): never
            if len(m) == 2 and c == 0:
                x, y = m
                for p, q in ((x, y), (y, x)):
                    if p.op == 'idx' and q.op == 'size' and p.a[0].op != 'irange' and q is size(rng_list(p.a[0])) and m[p] == -m[q]: return FALSE
            if c == 0 and len(m) == 1 and list(m)[0].op == 'at' and abs(list(m.values())[0]) == 1: return ~tob(list(m)[0])
            if any(contains_op(x, ('lv', 'npos')) for x in m): return atom(mk('eq0', d))
            return ge0(d) & ge0(mklin(-c, {x: -k for x, k in m.items()}))
    if a.op in CONSTOPS and b.op in CONSTOPS:
        if a.op == b.op: return TRUE if a.a == b.a else FALSE
        if {a.op, b.op} <= {'int', 'chr', 'enum'}: return TRUE if lin_of(a)[0] == lin_of(b)[0] else FALSE
        if {a.op, b.op} == {'s', 'chr'}: pass
        return FALSE
    # iterators
    for x, y in ((a, b), (b, a)):
        if y.op == 'end':
            if x.op == 'find' and x.a[0] is y.a[0]: return ~has(x.a[0], x.a[1])
            if x.op == 'first' and x.a[0] is y.a[0]: return ~ex(x.a[0], x.a[1], x.a[2])
            if x.op == 'elem' and x.a[0] is y.a[0]: return FALSE
            if x.op == 'firstval' and isinstance(x.a[3], T) and x.a[3].op == 'elem' and (x.a[0] is y.a[0] or y.a[0].op == 'fil' and x.a[0] is y.a[0].a[0]): return FALSE
            if x.op == 'begin' and x.a[0] is y.a[0]: return ~nonempty(rng_list(x.a[0]))
        if y.op == 'npos':
            if x.op in ('sfind', 'srfind'):
                if x.op == 'sfind' and x.a[2].op == 'int' and x.a[2].a[0] == 0 or x.a[2].op == 'npos':
                    s, p = x.a[0], x.a[1]
                    if p.op == 's' and s.op == 's': return FALSE if p.a[0] in s.a[0] else TRUE
                    return ~atom(mk('substr?', s, p))
        if y.op == 'int' and y.a[0] == 0 and x.op == 'rfind0': return prefix(x.a[0], x.a[1])
    if b.op == 's' and a.op == 'cat': # a literal prefix or suffix that cannot match
        ps = a.a[0]
        lit = b.a[0]
        if ps[0].op == 's' and not lit.startswith(ps[0].a[0]): return FALSE
        if ps[-1].op == 's' and not lit.endswith(ps[-1].a[0]): return FALSE
        if sum(len(p.a[0]) for p in ps if p.op == 's') > len(lit): return FALSE
    if a.op == 'cat' and b.op == 'cat':
        pa, pb = a.a[0], b.a[0]
        if pa[0] is pb[0]: return eq(cat(*pa[1:]), cat(*pb[1:]))
        if pa[-1] is pb[-1]: return eq(cat(*pa[:-1]), cat(*pb[:-1]))
    if a.op not in CONSTOPS and b.op not in CONSTOPS and a.id > b.id: a, b = b, a
    return atom(mk('eq', a, b))


def prefix(s, p):
    """s begins with p"""
    if isinstance(s, B) or isinstance(p, B): return atom(mk('prefix', tot(s), tot(p)))
    if s.op == 'ite': return bite(s.a[0], prefix(s.a[1], p), prefix(s.a[2], p))
    if p.op == 'ite': return bite(p.a[0], prefix(s, p.a[1]), prefix(s, p.a[2]))
    if p is EMPTY or s is p: return TRUE
    if p.op == 's':
        if s.op == 's': return TRUE if s.a[0].startswith(p.a[0]) else FALSE
        if s.op == 'cat' and s.a[0][0].op == 's':
            l = s.a[0][0].a[0]
            if l.startswith(p.a[0]): return TRUE
            if not p.a[0].startswith(l): return FALSE
    if s.op == 'cat' and s.a[0][0] is p: return TRUE
    return atom(mk('prefix', s, p))


def suffix(s, p):
    """s ends with p"""
    if isinstance(s, B) or isinstance(p, B): return atom(mk('suffix', tot(s), tot(p)))
    if s.op == 'ite': return bite(s.a[0], suffix(s.a[1], p), suffix(s.a[2], p))
    if p.op == 'ite': return bite(p.a[0], suffix(s, p.a[1]), suffix(s, p.a[2]))
    if p is EMPTY or s is p: return TRUE
    if p.op == 's':
        if s.op == 's': return TRUE if s.a[0].endswith(p.a[0]) else FALSE
        if s.op == 'cat' and s.a[0][-1].op == 's':
            l = s.a[0][-1].a[0]
            if l.endswith(p.a[0]): return TRUE
            if not p.a[0].endswith(l): return FALSE
    if s.op == 'cat' and s.a[0][-1] is p: return TRUE
    return atom(mk('suffix', s, p))


# --- ranges, lists, quantifiers
def rng(lst): return mk('range', 'elems', lst)


def rng_list(R): return R.a[1] if R.op == 'range' and R.a[0] == 'elems' else mk('list', R)


def elem(R, d=1): return mk('elem', R, d)


NPOS = mk('npos')


def textual(t): return 'basic_string' in t or t.replace('const ', '').strip().startswith(('std::string', 'string', 'llvm::StringRef', 'StringRef', 'char'))


def isnum(t): return t.replace('const ', '').strip() in ('int', 'unsigned int', 'unsigned', 'long', 'unsigned long', 'size_t', 'std::size_t', 'unsigned long long', 'long long')


def numeric(x): return x.op == 'ite' and numeric(x.a[1]) and numeric(x.a[2]) or x.op in ('int', 'lin', 'size', 'npos', 'idx') or x.op == 'call' and x.a[0].startswith('find_') or x.op in ('sfind', 'srfind')


def subtext(v, a, n):
    """the n characters of the text v from the a-th (npos: all that are left)"""
    if isinstance(v, T):
        if v.op == 'ite': return ite(v.a[0], subtext(v.a[1], simp(a, v.a[0]), simp(n, v.a[0])), subtext(v.a[2], simp(a, ~v.a[0]), simp(n, ~v.a[0])))
        if n is mk('int', 0): return EMPTY
        if n is not NPOS and (n is size(v) or add(a, n) is size(v)): n = NPOS
        if a is mk('int', 0) and n is NPOS: return v
        if is_str(v) and a.op == 'int' and n.op in ('int', 'npos'): return mk('s', v.a[0][a.a[0]:] if n is NPOS else v.a[0][a.a[0]:a.a[0] + n.a[0]])
        ps = pieces(v)
        if len(ps) > 1 and ps[0].op == 's' and a.op == 'int' and a.a[0] > 0:
            k = min(a.a[0], len(ps[0].a[0]))
            return subtext(cat(mk('s', ps[0].a[0][k:]), *ps[1:]), mk('int', a.a[0] - k), n)
        if v.op == 'call' and v.a[0] == 'substr' and len(v.a[1]) == 3:
            x, b, m = v.a[1]
            if m is NPOS: return subtext(x, add(a, b), n)
            if n is NPOS: return subtext(x, add(a, b), add(m, a, -1))
            if ge0(add(add(m, a, -1), n, -1)) is TRUE: return subtext(x, add(a, b), n)
        if a is mk('int', 0) and n is add(size(v), mk('int', 1), -1):
            r = chop(v)
            if r is not None: return r
    return mk('call', 'substr', (v, a, n))


def alts(op, x, *r):
    return ite(x.a[0], alts(op, x.a[1], *r), alts(op, x.a[2], *r)) if isinstance(x, T) and x.op == 'ite' else mk(op, x, *r)


def at(cont, k):
    if isinstance(cont, T):
        if isinstance(k, T) and k.op == 'lin' and cont.op not in ('ite', 'cat', 's', 'item', 'star') and k is add(size(cont), mk('int', 1), -1): k = mk('last')
        if cont.op == 'ite': return ite(cont.a[0], at(cont.a[1], simp(k, cont.a[0])), at(cont.a[2], simp(k, ~cont.a[0])))
        if isinstance(k, T) and k.op == 'idx' and k.a[0].op == 'range' and k.a[0].a[0] == 'elems' and k.a[0].a[1].op == 'call' and k.a[0].a[1].a[0] == 'pop_back' and k.a[0].a[1].a[1] == (cont,): return elem(k.a[0], k.a[1])
        if isinstance(k, T) and k.op == 'ite' and cont.op in ('cat', 'item') and all(p.op == 'item' for p in pieces(cont)): return ite(k.a[0], at(cont, k.a[1]), at(cont, k.a[2]))
        if isinstance(k, T) and k.op == 'ite': return ite(k.a[0], at(cont, k.a[1]), at(cont, k.a[2]))
        if cont.op == 'range' or cont.op == 'list':
            R = cont if cont.op == 'range' else cont.a[0]
            if isinstance(k, T) and k.op == 'idx' and k.a[0] is R: return elem(R, k.a[1])
            return mk('at', R, k)
        if cont.op == 'list': return at(cont.a[0], k)
        if isinstance(k, T) and k.op == 'idx' and k.a[0] is rng(cont): return elem(rng(cont), k.a[1])
        if cont.op == 'star' and cont.a[2].op == 'item' and isinstance(k, T) and k.op == 'idx' and k.a[0] is cont.a[0]:
            return substitute(cont.a[2].a[0], {elem(cont.a[0], cont.a[1]): elem(k.a[0], k.a[1]), mk('idx', cont.a[0], cont.a[1]): k})
        ps = pieces(cont)
        if any(p.op == 'kv' for p in ps):
            r = None
            base = []
            for p in ps:
                if p.op == 'kv':
                    r = ite(eq(k, p.a[0]), p.a[1], r if r is not None else at(cat(*base), k) if base else mk('at', mk('nil'), k))
                else:
                    base.append(p)
                    r = mk('at', cat(*base), k)
            return r
        if isinstance(k, T) and k.op == 'int':
            if all(p.op == 'item' for p in ps) and 0 <= k.a[0] < len(ps): return ps[k.a[0]].a[0]
            if ps and all(p.op == 'item' for p in ps[:k.a[0] + 1]) and len(ps) > k.a[0] >= 0: return ps[k.a[0]].a[0]
            if ps and ps[0].op == 's' and 0 <= k.a[0] < len(ps[0].a[0]): return mk('chr', ord(ps[0].a[0][k.a[0]]))
        elif isinstance(k, T) and k.op == 'last' and ps and ps[-1].op == 'item': return ps[-1].a[0]
        elif isinstance(k, T) and k.op == 'last' and lastchr(cont) is not None: return lastchr(cont)
        elif isinstance(k, T) and k.op in ('size', 'lin', 'call', 'p') and ps and len(ps) <= 12 and all(p.op == 'item' for p in ps):
            r = mk('oob')
            for i in reversed(range(len(ps))): r = ite(eq(k, mk('int', i)), ps[i].a[0], r)
            return r
    return mk('at', tot(cont), tot(k))


def has(cont, k):
    """container holds the element / key k"""
    if cont.op == 'range' and cont.a[0] == 'elems': cont = cont.a[1]
    if cont.op == 'ite': return bite(cont.a[0], has(cont.a[1], k), has(cont.a[2], k))
    if cont.op == 'nil' or cont is EMPTY: return FALSE
    if isinstance(k, T) and k.op == 'ite': return bite(k.a[0], has(cont, k.a[1]), has(cont, k.a[2]))
    if cont.op == 'item': return eq(cont.a[0], k)
    if cont.op == 'kv': return eq(cont.a[0], k)
    if cont.op == 's' and isinstance(k, T) and k.op == 'chr': return TRUE if chr(k.a[0]) in cont.a[0] else FALSE
    if cont.op == 's':
        r = FALSE
        for ch in sorted(set(cont.a[0])): r = r | eq(k, mk('chr', ord(ch)))
        return r
    if cont.op == 'cat':
        r = FALSE
        for p in cont.a[0]: r = r | has(p, k)
        return r
    if cont.op == 'star': return ex(cont.a[0], cont.a[1], has(cont.a[2], k))
    return atom(mk('has', cont, tot(k)))


def depends(t, e): return contains_term(t, e)


def split_inv(g, dep, leaf):
    """Shannon-expand g on the atoms for which dep is false; leaf(g') on what remains."""
    if g is TRUE or g is FALSE: return leaf(g)
    for v in support(g):
        if not dep(atom_term(v)):
            h, l = split_inv(cofactor(g, v, True), dep, leaf), split_inv(cofactor(g, v, False), dep, leaf)
            return ite(atom(atom_term(v)), h, l)
    return leaf(g)


BINDING = ('ex', 'star', 'firstidx', 'firstval', 'lastval', 'firstb', 'fold', 'foldb', 'upto', 'count', 'countif')
_freem = {}


def free_in(t, R, d, e, i):
    """t speaks of the current element of the d-th loop over R, not just of those of a loop of its own"""
    if t is e or t is i: return True
    if not contains_term(t, e) and not contains_term(t, i): return False
    k = (t, e)
    r = _freem.get(k)
    if r is None:
        if isinstance(t, B): r = any(free_in(x, R, d, e, i) for x in atoms_of(t))
        elif t.op in BINDING and t.a[0] is R and t.a[1] == d: r = t.op in ('fold', 'foldb', 'upto') and any(isinstance(x, (T, B)) and free_in(x, R, d, e, i) for x in t.a[-1:])
        else:
            def go(x): return any(go(y) for y in x) if isinstance(x, tuple) else isinstance(x, (T, B)) and free_in(x, R, d, e, i)
            r = go(t.a)
        _freem[k] = r
    return r


def elem_dep(R, d):
    e, i = elem(R, d), mk('idx', R, d)
    if R.op == 'while': return lambda t: contains_op(t, ('lv', 'wval', 'while', 'sym'))
    return lambda t: free_in(t, R, d, e, i)


def ex(R, d, g):
    """some element of R satisfies g"""
    if g is FALSE: return FALSE

    def leaf(x):
        if x is FALSE: return FALSE
        if x is TRUE: return nonempty(rng_list(R)) if R.op == 'range' and R.a[0] == 'elems' else atom(mk('ne', R))
        k = is_elem_test(x, R, d)
        if k is not None: return has(R.a[1], k)
        return atom(mk('ex', R, d, x))
    return split_inv(g, elem_dep(R, d), leaf)


def first(op, R, d, g, *v):
    """the position of, or the value at, the first element of R that satisfies g (where there is one)"""
    dep = elem_dep(R, d)
    return split_inv(g, lambda t: dep(t) or contains_op(t, ('lv',)), lambda x: mk('oob') if x is FALSE else mk(op, R, d, x, *v))


def is_elem_test(b, R, d):
    """k if b just says that the element is k"""
    if R.op != 'range' or R.a[0] != 'elems': return None
    if not single(b): return None
    t = atom_term(b.v)
    if t.op != 'eq': return None
    e = elem(R, d)
    for x, k in (t.a, t.a[::-1]):
        if x is e and k.op != 'chr' and not any(y is e or y.op == 'idx' and y.a[0] is R or y.op == 'lv' for y in subterms(k)): return k
    return None


def single(b): return isinstance(b, B) and b is not TRUE and b is not FALSE and b is atom(atom_term(b.v))


TEXTS = set()           # terms known to be texts


def itemised(L):
    """a list known as the items put into it, some of them in loops or conditionally"""
    if L is EMPTY or L.op in ('nil', 'item'): return True
    if L.op == 'cat': return all(itemised(p) for p in L.a[0])
    if L.op == 'star': return itemised(L.a[2])
    if L.op == 'ite': return itemised(L.a[1]) and itemised(L.a[2])
    return False


def not_beyond(a, b):
    """the number a is never more than b"""
    if a is b: return True
    if a.op == 'ite': return not_beyond(a.a[1], b) and not_beyond(a.a[2], b)
    if a.op == 'firstidx': return b is size(rng_list(a.a[0]))
    return a.op == 'int' and a.a[0] <= 0 and b.op == 'size'


def all_atoms(t):
    out = set()
    for x in subterms(t if isinstance(t, T) else mk('b', t)):
        for y in (x,) + tuple(x.a):
            if isinstance(y, B): out |= set(support(y))
    return out


def star(R, d, body):
    """the concatenation of body over the elements of R"""
    if body is EMPTY or body.op == 'nil': return EMPTY
    if R.op == 'range' and R.a[0] == 'elems' and R.a[1].op in ('star', 'cat', 'ite', 'item') and itemised(R.a[1]):
        e = elem(R, d)
        L = R.a[1]
        if L.op == 'star' and L.a[2].op == 'item' and L.a[0].op in ('range', 'fil'):
            # one element for each of another sequence: the same positions
            return star(L.a[0], L.a[1], substitute(body, {e: L.a[2].a[0], mk('idx', R, d): mk('idx', L.a[0], L.a[1])}))
        if all(x is e or R not in x.a and not (x.op == 'size' and x.a[0] is R.a[1]) for x in subterms(body)):
            def fuse(L):
                if L is EMPTY or L.op == 'nil': return EMPTY
                if L.op == 'item': return substitute(body, {e: L.a[0]})
                if L.op == 'cat': return cat(*[fuse(p) for p in L.a[0]])
                if L.op == 'ite': return ite(L.a[0], fuse(L.a[1]), fuse(L.a[2]))
                return star(L.a[0], L.a[1], fuse(L.a[2]))
            return fuse(R.a[1])
    if R.op == 'irange':
        # a last step that is told apart stands for itself
        x, last = elem(R, d), add(R.a[1], mk('int', -1))
        at_last = eq(x, last)
        if isinstance(at_last, B) and single(at_last) and not_beyond(R.a[0], last) and any(v == at_last.v for v in all_atoms(body)):
            one, before = substitute(body, {x: last}), substitute(body, {atom_term(at_last.v): FALSE})
            if last.op == 'size':
                L = last.a[0]
                R2 = L.a[0] if L.op == 'list' else rng(L)
                i = mk('idx', R2, d)

                def from_(a): return bite(a.a[0], from_(a.a[1]), from_(a.a[2])) if a.op == 'ite' else FALSE if a is last else TRUE if a.op == 'int' else ge0(add(i, a, -1))
                return cat(star(R2, d, ite(from_(R.a[0]), substitute(before, {x: i}), EMPTY)), one)
            R2 = mk('irange', R.a[0], last)
            return cat(star(R2, d, substitute(before, {x: elem(R2, d)})), one)
    e = elem_dep(R, d)
    if body.op == 'ite' and not any(e(x) for x in atoms_of(body.a[0])):
        return ite(body.a[0], star(R, d, body.a[1]), star(R, d, body.a[2]))
    if body.op == 'ite' and R.op == 'range' and R.a[0] == 'elems':
        # a text copied without one of its characters
        c, x, y = body.a
        if x is not EMPTY: c, x, y = ~c, y, x
        if x is EMPTY and y is elem(R, d) and single(c):
            t = atom_term(c.v)
            if t.op == 'eq' and y in t.a:
                k = t.a[1] if t.a[0] is y else t.a[0]
                if k.op == 'chr': return mk('call', 'remove_all', (R.a[1], k))
    if body.op == 'item' and body.a[0] is elem(R, d) and R.op == 'range' and R.a[0] == 'elems': return R.a[1]
    r = between(R, d, body)
    if r is not None: body = r
    return mk('star', R, d, body)


def position(R, d): return add(elem(R, d), R.a[0], -1) if R.op == 'irange' else mk('idx', R, d)


def between(R, d, body):
    """a separator written before every element but the first, as one written after every element but the last"""
    if R.op not in ('range', 'fil'): return None
    i, e = mk('idx', R, d), elem(R, d)

    def only(t): return contains_term(t, i) and not contains_term(t, e)

    def peel(b):
        if b.op == 'cat' and b.a[0][0].op == 'ite' and only(b.a[0][0]): return b.a[0][0], cat(*b.a[0][1:])
        if b.op == 'ite':
            c, x, y = b.a
            if x is EMPTY: c, x, y = ~c, y, x
            if y is EMPTY and only(mk('b', c)):
                r = peel(x)
                if r: return ite(c, r[0], EMPTY), ite(c, r[1], EMPTY)
        return None
    r = peel(body)
    if not r: return None
    p, rest = r
    if rest is EMPTY or substitute(p, {i: mk('int', 0)}) is not EMPTY: return None
    last = eq(add(i, mk('int', 1)), size(rng_list(R)))
    return cat(rest, ite(last, EMPTY, substitute(p, {i: add(i, mk('int', 1))})))


def substitute(t, m, memo=None):
    """Replace terms (dict T->T|B) everywhere below t, rebuilding through the smart constructors."""
    if memo is None: memo = {}
    if isinstance(t, tuple): return tuple(substitute(x, m, memo) for x in t)
    if not isinstance(t, (T, B)): return t
    r = memo.get(t)
    if r is not None: return r
    if isinstance(t, B):
        if t is TRUE or t is FALSE: return t
        r = subst_b(t, lambda a: tob_atom(substitute(a, m, memo)))
    elif t in m: r = m[t]
    elif t.op in BINDING and any(x.op in ('elem', 'idx') and x.a[0] is t.a[0] and x.a[1] == t.a[1] for x in m):
        r = substitute(t, {x: y for x, y in m.items() if not (x.op in ('elem', 'idx') and x.a[0] is t.a[0] and x.a[1] == t.a[1])})
    else:
        a = tuple(substitute(x, m, memo) for x in t.a)
        if all(x is y for x, y in zip(a, t.a)) or a == t.a: r = t
        else: r = rebuild(t.op, a)
    memo[t] = r
    return r


def tob_atom(t):
    """the condition an (already substituted) atom term stands for"""
    if isinstance(t, B): return t
    return atom(t)


def rebuild(op, a):
    if op == 'cat': return cat(*a[0])
    if op == 'ite': return ite(*a)
    if op == 'b': return a[0]
    if op == 'eq': return eq(*a)
    if op == 'eq0': return eq(a[0], mk('int', 0))
    if op == 'ge0': return ge0(a[0])
    if op == 'nn': return tob(a[0])
    if op == 'ne': return nonempty(a[0])
    if op == 'has': return has(*a)
    if op == 'at': return at(*a)
    if op == 'ex': return ex(*a)
    if op == 'star': return star(*a)
    if op == 'setat' and a[1].op == 'last' and chop(a[0]) is not None: return cat(chop(a[0]), a[2])
    if op == 'fold' and a[0].op == 'range' and a[0].a[0] == 'elems' and a[0].a[1] is EMPTY: return a[3]
    if op == 'size': return size(a[0])
    if op == 'prefix': return prefix(*a)
    if op == 'suffix': return suffix(*a)
    if op == 'substr?':
        if a[1].op == 's' and not a[1].a[0]: return TRUE
        if a[0].op == 's' and a[1].op == 's': return TRUE if a[1].a[0] in a[0].a[0] else FALSE
        if a[0].op == 's' and not a[0].a[0]: return ~nonempty(a[1])
        if a[0].op == 'ite': return bite(a[0].a[0], tob_atom(rebuild(op, (a[0].a[1], a[1]))), tob_atom(rebuild(op, (a[0].a[2], a[1]))))
        return mk(op, *a)
    if op == 'lin':
        r = mk('int', a[0])
        for t, k in a[1]: r = addk(r, t, k)
        return r
    if op == 'fld': return fld(*a)
    if op == 'tget': return tget(*a)
    if op == 'call' and a[0] == 'substr' and len(a[1]) == 3 and all(isinstance(x, T) for x in a[1]): return subtext(*a[1])
    return mk(op, *a)


def fld(v, n):
    if isinstance(v, B): v = mk('b', v)
    if n == 'first': return tget(v, 0)
    if n == 'second': return tget(v, 1)
    if v.op == 'rec':
        for k, x in v.a[1]:
            if k == n: return x
    if v.op == 'upd':
        return v.a[2] if v.a[1] == n else fld(v.a[0], n)
    if v.op == 'ite': return ite(v.a[0], fld(v.a[1], n), fld(v.a[2], n))
    return mk('fld', v, n)


def tget(v, i):
    if isinstance(v, B): v = mk('b', v)
    if v.op == 'tup' and i < len(v.a): return v.a[i]
    if v.op == 'ite': return ite(v.a[0], tget(v.a[1], i), tget(v.a[2], i))
    if v.op == 'find':                       # map iterator
        if i == 0: return v.a[1]
        return at(v.a[0].a[1] if v.a[0].op == 'range' else v.a[0], v.a[1])
    if v.op == 'kv': return v.a[i]
    return mk('tget', v, i)


# ------------------------------------------------------------------------------------------------ program state
class State:
    __slots__ = ('pc', 'store', 'dead')

    def __init__(self, pc, store):
        self.pc, self.store = pc, store

    def copy(self, pc=None): return State(self.pc if pc is None else pc, dict(self.store))


class Flow:
    __slots__ = ('rets', 'brks', 'conts')

    def __init__(self): self.rets, self.brks, self.conts = [], [], []


class Frame:
    n = 0

    def __init__(self, fk, parent=None, this=None, ret_ref=False, file=None, cls=None):
        Frame.n += 1
        self.id, self.fk, self.parent, self.this, self.ret_ref, self.file, self.cls = Frame.n, fk, parent, this, ret_ref, file, cls
        self.vars = set()


class Event:
    __slots__ = ('kind', 'fn', 'args', 'pc', 'loops', 'file', 'line', 'stack', 'seq', 'extra')

    def __repr__(self): return '%s %s(%s) if %s [%s:%s]' % (self.kind, self.fn, ', '.join(show(a, 5) for a in self.args), showb(self.pc, 5), self.file, self.line)


VALUE_TYPES = re.compile(r'^(const )?(std::(basic_string|string|vector|set|map|pair|tuple|unordered_\w+|multi\w+|deque|list|array|stack|queue|basic_\w*stringstream|\w*stringstream|initializer_list|function)\b'
                         r'|llvm::(SmallVector|DenseMap|DenseSet|StringMap|StringSet|StringRef|SmallPtrSet|SmallSet|SmallString|raw_string_ostream|Twine)|bool$|int$|unsigned|long|char$|size_t|(const )?char \*)')


def is_value_type(t): return bool(VALUE_TYPES.match(t or ''))


def is_bool(t): return (t or '').replace('const ', '') == 'bool'


STD_NAMES = set()        # functions of the standard library met and not interpreted
STD_KNOWN = {'message'}
STOP = {  # functions kept as uninterpreted operations (each is analysed on its own where a property needs it)
    'is_bindable', 'is_skipping_requested', 'is_binding_requested', 'standard_name', 'class_qualified_name', 'function_qualified_name',
    'namespace_from_named_decl', 'python_class_name', 'class_name', 'mangle_type_name', 'template_specialization', 'function_arguments',
    'function_arguments_for_lambda', 'function_arguments_for_py_overload', 'relevant_include', 'line_number',
    'generate_comment_for_declaration', 'generate_documentation_string_for_declaration', 'is_const_overload', 'is_callback_structure_needed',
    'is_callback_structure_constructible', 'is_inherited_from_enable_shared_from_this', 'is_field_assignable', 'request_bindings',
    'bind_function', 'bind_enum', 'is_python_builtin', 'is_banned_symbol', 'add_relevant_includes', 'add_relevant_include_for_decl',
    'base_default_default_constructor_available', 'function_pointer_type', 'python_function_name', 'cpp_python_operator', 'replace', 'replace_',
    'indent', 'split', 'trim', 'base_namespace', 'last_namespace', 'fix_boolean_types', 'template_argument_to_string', 'expresion_to_string',
    'callback_structure_name', 'is_std_function_bindable', 'simplify_std_class_name', 'typename_from_type_decl', 'global_insertion_operator',
    'bind_data_member', 'is_overloadable', 'binding_public_data_members', 'binding_public_member_functions', 'update_source_file',
    'is_class_binding_requested', 'is_class_skipping_requested', 'is_function_binding_requested', 'is_function_skipping_requested',
    'is_namespace_binding_requested', 'is_namespace_skipping_requested', 'is_enum_binding_requested', 'is_enum_skipping_requested',
    'is_field_skipping_requested', 'is_module_local_requested', 'is_buffer_protocol_requested', 'is_smart_holder_requested',
    'is_include_skipping_requested', 'is_custom_trampoline_function_requested', 'includes_code', 'is_function_type', 'getQualifiedNameAsStringLLVM5Fix',
    'bind_member_functions_for_call_back', 'binding_template_bases', 'split_in_two', 'get_all_methods_names', 'is_in_system_header', 'bind', 'read',
}

def clang_call(name, ins):
    """a question to clang, in terms of a more basic one where there is one"""
    if len(ins) == 1 and name in ('getAsCXXRecordDecl', 'getAsRecordDecl'):
        tag = mk('call', 'getAsTagDecl', ins)
        return ite(tob(tag) & atom(mk('isa', name[5:], tag)), tag, NULL)
    return mk('call', name, ins)


# enumerations of declarations: kind -> (canonical kind, isa filter)
RANGES = {'decls': ('decl', None), 'decl': ('decl', None), 'method': ('decl', 'clang::CXXMethodDecl'), 'methods': ('decl', 'clang::CXXMethodDecl'),
          'ctor': ('decl', 'clang::CXXConstructorDecl'), 'ctors': ('decl', 'clang::CXXConstructorDecl'),
          'field': ('decl', 'clang::FieldDecl'), 'fields': ('decl', 'clang::FieldDecl'),
          'bases': ('base', None), 'base': ('base', None), 'vbases': ('vbase', None), 'shadow': ('shadow', None), 'shadows': ('shadow', None),
          'spec': ('spec', None), 'specializations': ('spec', None), 'param': ('param', None), 'params': ('param', None), 'parameters': ('param', None),
          'enumerator': ('enumerator', None), 'enumerators': ('enumerator', None), 'child': ('child', None), 'children': ('child', None),
          'friend': ('friend', None), 'friends': ('friend', None), 'attr': ('attr', None), 'attrs': ('attr', None), 'redecls': ('redecl', None)}

IDENTITY_METHODS = {'getTypePtr', 'getTypePtrOrNull', 'getTypePtrUnsafe', 'c_str', 'data', 'str', 'getValue', 'get', 'asArray', 'toStringRef', 'base', 'getPointer', 'as_const', 'string', 'begin_impl'}
IDENTITY_FUNCS = {'std::move', 'std::forward', 'llvm::cast', 'std::cref', 'std::ref', 'std::as_const', 'llvm::cast_or_null', 'std::addressof', 'llvm::makeArrayRef', 'llvm::StringRef', 'std::static_pointer_cast'}
NORETURN = {'exit', 'std::exit', 'abort', 'std::abort', '_exit', 'quick_exit', 'std::terminate', '__assert_fail', 'llvm::report_fatal_error'}
PARENT = {  # clang class hierarchy, as far as the sources use it
    'CXXConstructorDecl': 'CXXMethodDecl', 'CXXDestructorDecl': 'CXXMethodDecl', 'CXXConversionDecl': 'CXXMethodDecl', 'CXXMethodDecl': 'FunctionDecl',
    'FunctionDecl': 'DeclaratorDecl', 'FieldDecl': 'DeclaratorDecl', 'VarDecl': 'DeclaratorDecl', 'ParmVarDecl': 'VarDecl', 'DeclaratorDecl': 'ValueDecl',
    'EnumConstantDecl': 'ValueDecl', 'ValueDecl': 'NamedDecl', 'IndirectFieldDecl': 'ValueDecl',
    'ClassTemplatePartialSpecializationDecl': 'ClassTemplateSpecializationDecl', 'ClassTemplateSpecializationDecl': 'CXXRecordDecl', 'CXXRecordDecl': 'RecordDecl',
    'RecordDecl': 'TagDecl', 'EnumDecl': 'TagDecl', 'TagDecl': 'TypeDecl', 'TypedefDecl': 'TypedefNameDecl', 'TypeAliasDecl': 'TypedefNameDecl', 'TypedefNameDecl': 'TypeDecl',
    'TypeDecl': 'NamedDecl', 'FunctionTemplateDecl': 'RedeclarableTemplateDecl', 'ClassTemplateDecl': 'RedeclarableTemplateDecl', 'RedeclarableTemplateDecl': 'TemplateDecl',
    'TemplateDecl': 'NamedDecl', 'UsingDecl': 'BaseUsingDecl', 'BaseUsingDecl': 'NamedDecl', 'UsingShadowDecl': 'NamedDecl', 'ConstructorUsingShadowDecl': 'UsingShadowDecl', 'NamespaceDecl': 'NamedDecl', 'NamespaceAliasDecl': 'NamedDecl',
    'NamedDecl': 'Decl', 'AccessSpecDecl': 'Decl', 'FriendDecl': 'Decl', 'TranslationUnitDecl': 'Decl',
    'RecordType': 'TagType', 'EnumType': 'TagType', 'TagType': 'Type', 'PointerType': 'Type', 'LValueReferenceType': 'ReferenceType', 'RValueReferenceType': 'ReferenceType',
    'ReferenceType': 'Type', 'BuiltinType': 'Type', 'FunctionProtoType': 'FunctionType', 'FunctionType': 'Type', 'ConstantArrayType': 'ArrayType', 'ArrayType': 'Type',
    'TemplateSpecializationType': 'Type', 'ElaboratedType': 'Type', 'TypedefType': 'Type', 'InjectedClassNameType': 'Type'}


def supers(c):
    out = []
    while c:
        out.append(c)
        c = PARENT.get(c)
    return out


def alternatives(v):
    if isinstance(v, T) and v.op == 'ite': return alternatives(v.a[1]) + alternatives(v.a[2])
    return [v] if isinstance(v, T) else []


# classes of canonical types: getAs<X>() looks through sugar, so it succeeds exactly when the canonical type is an X
CANON_TYPES = {'PointerType', 'ReferenceType', 'LValueReferenceType', 'RValueReferenceType', 'FunctionProtoType', 'FunctionType', 'FunctionNoProtoType', 'RecordType', 'BuiltinType',
               'ArrayType', 'ConstantArrayType', 'MemberPointerType'}


def is_charptr(t): return re.fullmatch(r'(const )?char \*( ?const)?', t.strip()) is not None


def text_ptr(v):
    """(text, offset) of a character pointer"""
    if v.op == 'lin' or v.op == 'int':
        c, m = lin_of(v)
        b = [x for x in m if x.op not in ('size', 'scanlen', 'lv', 'idx', 'sfind', 'int')]
        if len(b) == 1 and m[b[0]] == 1: return b[0], add(v, b[0], -1)
    return v, mk('int', 0)


def char_at(v, k):
    v = tot(v)
    if v.op == 'ite': return ite(v.a[0], char_at(v.a[1], k), char_at(v.a[2], k))
    b, o = text_ptr(v)
    return at(b, add(o, k))


def canon_isa(c, x):
    if x is NULL: return FALSE
    if x.op == 'ite': return bite(x.a[0], canon_isa(c, x.a[1]), canon_isa(c, x.a[2]))
    return atom(mk('call', 'is' + c, (x,)))


def chained(e):
    """a change of a text whose result is that text"""
    while e is not None and e.get('k') == 'cast': e = e['e']
    if e is None: return False
    if e['k'] == 'opcall': return e['op'] == '+=' and 'basic_string' in (e.get('fn') or '') and not e.get('rp')
    return e['k'] == 'call' and e.get('o') is not None and not e.get('rp') and 'basic_string' in e.get('fn', '') and sh(e['fn']) in ('append', 'assign', 'replace', 'insert', 'erase') and bool(e.get('rr'))


class Engine:
    def __init__(self, facts, stop=None, unstop=(), inline_only=None, max_depth=40):
        self.F = facts
        self.stop = set(STOP if stop is None else stop) - set(unstop)
        self.events = []
        self.rec = True
        self.stack = []       # [(fk, file, line)]
        self.loops = []       # active (range, depth)
        self.lams = {}
        self.where = {}       # term -> set of (file, line)
        self.seq = 0
        self.statics = {}
        self.analysed = set()
        self.max_depth = max_depth
        self.opaque = []      # constructs not understood
        self.memo_static = {}
        self.mutglobals = None
        self.lvn = 0
        self.lvkeys = {}
        self.whiles = {}            # loop -> (condition, {variable: (key, before, after one iteration)}, leaves early)
        self.loopinfo = {}          # per loop: enumeration and, per variable, the values before the loop and after one iteration
        self.epoch = {}             # what was done to a stream last
        self.static_vars = {}

    # ---------------------------------------------------------------- bookkeeping
    def event(self, kind, fn, args, st, node, **extra):
        if not self.rec or st.pc is FALSE: return
        e = Event()
        self.seq += 1
        e.kind, e.fn, e.args, e.pc, e.loops = kind, fn, tuple(args), st.pc, tuple(self.loops)
        e.file, e.line, e.stack, e.seq, e.extra = self.stack[-1][1] if self.stack else '?', node.get('l', 0) if node else 0, tuple(s[0] for s in self.stack), self.seq, extra
        self.events.append(e)
        return e

    def failed(self, v):
        """the stream has failed so far: on opening it, on writing to it, or on closing it"""
        p = self.epoch.get(v)
        return atom(mk('fail', v if p is None else mk(p, v)))

    def here(self, t, node):
        if isinstance(t, T) and self.stack and self.rec:
            self.where.setdefault(t, set()).add((self.stack[-1][1], node.get('l', 0)))

    def unknown(self, what, node):
        if self.rec: self.opaque.append((what, self.stack[-1][1] if self.stack else '?', node.get('l', 0) if node else 0))

    # ---------------------------------------------------------------- store
    def kids(self, st, key):
        n = len(key)
        return [k for k in st.store if len(k) > n and k[:n] == key]

    def read(self, st, lv, t=None):
        root, path = lv
        if root[0] == 'C':
            _, c, a, b = root
            c = simp(c, st.pc)
            if c is TRUE: return self.read(st, (a[0], a[1] + path), t)
            if c is FALSE: return self.read(st, (b[0], b[1] + path), t)
            return ite(c, self.read(st, (a[0], a[1] + path), t), self.read(st, (b[0], b[1] + path), t))
        if path and path[-1][0] == 'i':
            c = self.read(st, (root, path[:-1]), 'std::vector')
            return simp(at(c, path[-1][1]), st.pc)
        if any(p[0] == 'i' for p in path):
            v = self.read(st, (root, path[:-1]))
            return simp(fld(v, path[-1][1]), st.pc)
        key = root + tuple('.' + p[1] for p in path)
        v = st.store.get(key)
        if isinstance(v, tuple): return self.read(st, v[1])
        if v is None:
            if path:
                b = self.read(st, (root, path[:-1]))
                v = fld(b, path[-1][1])
            else: v = self.default(st, root)
        if root[0] == 'O' and not path and not (t and is_value_type(t)) and not (root[1].op in ('rec', 'new') and isinstance(v, T) and v.op == 'mut'): return root[1]
        ks = self.kids(st, key)
        for k in ks:
            if len(k) == len(key) + 1:
                x = self.read(st, (root, path + (('f', k[-1][1:]),)))
                v = self.updf(v, k[-1][1:], x)
        return simp(v, st.pc)

    def updf(self, v, f, x):
        if isinstance(v, T) and v.op == 'rec':
            d = list(v.a[1])
            for i, (n, _) in enumerate(d):
                if n == f:
                    d[i] = (n, x)
                    break
            else: d.append((f, x))
            return mk('rec', v.a[0], tuple(d))
        if isinstance(v, T) and v.op == 'tup' and f in ('first', 'second'):
            a = list(v.a)
            a[0 if f == 'first' else 1] = x
            return mk('tup', *a)
        return mk('upd', v, f, x)

    def default(self, st, root):
        if root[0] == 'O': return root[1]
        if root[0] == 'G': return self.global_value(root[1])
        if root[0] == 'S': return mk('static', root[2])
        return mk('uninit', root[-1].split('#')[0] if isinstance(root[-1], str) else '?')

    def write(self, st, lv, v, node=None):
        root, path = lv
        if isinstance(v, tuple): raise AssertionError
        if root[0] == 'C':
            _, c, a, b = root
            for g, l in ((c, a), (~c, b)):
                if (st.pc & g) is FALSE: continue
                l = (l[0], l[1] + path)
                old = self.read(st, l, 'std::vector')
                self.write(State(st.pc & g, st.store), l, v if (st.pc & ~g) is FALSE else ite(g, simp(v, g) if isinstance(v, (T, B)) else v, old), node)
            return
        if path and path[-1][0] == 'i':
            base = (root, path[:-1])
            c = self.read(st, base, 'std::vector')
            self.write(st, base, self.store_at(c, path[-1][1], v))
            return
        if any(p[0] == 'i' for p in path):
            base = (root, path[:-1])
            self.write(st, base, self.updf(self.read(st, base), path[-1][1], v))
            return
        key = root + tuple('.' + p[1] for p in path)
        cur = st.store.get(key)
        if isinstance(cur, tuple): return self.write(st, cur[1], v, node)
        for k in self.kids(st, key): del st.store[k]
        st.store[key] = v
        if root[0] in ('O', 'G', 'S') and self.rec:
            self.event('store', root[0], (tot(root[1]) if root[0] == 'O' else mk('s', str(root[-1])), mk('s', '.'.join(str(p[1]) for p in path)), tot(v)), st, node)

    def store_at(self, c, k, v):
        ps = pieces(c)
        if isinstance(k, T) and k.op == 'int' and all(p.op == 'item' for p in ps) and 0 <= k.a[0] < len(ps):
            l = list(ps)
            l[k.a[0]] = mk('item', tot(v))
            return cat(*l)
        if isinstance(k, T) and k.op == 'last' and ps and ps[-1].op not in ('item', 'kv') and chop(c) is not None: return cat(chop(c), v)
        if isinstance(c, T) and (c.op in ('s', 'cat') and ps and ps[-1].op != 'kv' and any(p.op == 's' for p in ps)): return mk('setat', c, tot(k), tot(v))
        if ps and ps[-1].op == 'kv' and ps[-1].a[0] is k: return cat(*ps[:-1], mk('kv', tot(k), tot(v)))
        return cat(c, mk('kv', tot(k), tot(v)))

    def global_value(self, name):
        g = self.F.globals.get(name)
        if self.mutglobals is None:
            self.mutglobals = set()

            def walk(n):
                if isinstance(n, dict):
                    k = n.get('k')
                    tgt = None
                    if k == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='): tgt = n['a'][0]
                    elif k == 'un' and n['op'] in ('++', '--', '&'): tgt = n['e']
                    elif k == 'opcall' and n.get('op', '').endswith('=') and n['op'] not in ('==', '!=', '<=', '>='): tgt = n['a'][0]
                    if tgt and tgt.get('k') == 'var' and 'g' in tgt: self.mutglobals.add(tgt['g'])
                    for v in n.values(): walk(v)
                elif isinstance(n, list):
                    for v in n: walk(v)
            for f in self.F.functions.values(): walk(f['body'])
        if g and g.get('i') and name not in self.mutglobals and 'cl::' not in g['t']:
            st = State(TRUE, {})
            rec, self.rec = self.rec, False
            try:
                return self.eval(g['i'], st, Frame('global'))
            finally: self.rec = rec
        return mk('g', name.split('::')[-1])

    def merge(self, a, b):
        if a is None or a.pc is FALSE: return b
        if b is None or b.pc is FALSE: return a
        pc = a.pc | b.pc
        c = constrain(a.pc, pc)
        st = {}
        for k in a.store.keys() | b.store.keys():
            x, y = a.store.get(k), b.store.get(k)
            if x is y or x == y and isinstance(x, tuple):
                st[k] = x
                continue
            if x is None: x = self.dflt(a, k, y)
            if y is None: y = self.dflt(b, k, x)
            if x is None or y is None: continue       # a variable of an inner scope
            if isinstance(x, tuple) or isinstance(y, tuple):
                x = self.read(a, x[1]) if isinstance(x, tuple) else x
                y = self.read(b, y[1]) if isinstance(y, tuple) else y
            st[k] = ite(c, x, y)
        return State(pc, st)

    def dflt(self, st, key, other):
        """the value of key in a state that never wrote it"""
        root, i = (key, len(key))
        for n in range(len(key)):
            if isinstance(key[n], str) and n >= 2 and key[n].startswith('.'):
                i = n
                break
        root = key[:i]
        path = tuple(('f', k[1:]) for k in key[i:])
        if root[0] == 'L' and root not in st.store: return None
        return self.read(st, (root, path), 'std::vector') if path or root[0] != 'O' else root[1]

    def mergeall(self, sts):
        r = None
        for s in sts: r = self.merge(r, s)
        return r

    # ---------------------------------------------------------------- lvalues
    def var_lv(self, st, fr, v):
        f = fr
        while f is not None:
            k = ('L', f.id, v)
            if k in st.store or v in f.vars:
                x = st.store.get(k)
                if isinstance(x, tuple): return x[1]
                return (k, ())
            f = f.parent
        if v in self.static_vars: return (('S', 0, self.static_vars[v]), ())
        return (('L', fr.id, v), ())

    def obj_lv(self, v):
        """the object a pointer / reference value designates"""
        if isinstance(v, B): v = mk('b', v)
        if v.op == 'addr': return v.a[0]
        if v.op == 'ite' and any(x.op == 'addr' for x in alternatives(v)): return (('C', v.a[0], self.obj_lv(v.a[1]), self.obj_lv(v.a[2])), ())
        return (('O', v), ())

    def lval(self, e, st, fr):
        """an lvalue for e, or None if e is only a value"""
        k = e['k']
        if k == 'var':
            if 'g' in e: return (('G', e['g']), ())
            return self.var_lv(st, fr, e['v'])
        if k == 'mem':
            b = self.lval_or_obj(e['b'], st, fr, e.get('arrow'))
            return (b[0], b[1] + (('f', e['n']),))
        if k == 'this': return None
        if k == 'un' and e['op'] == '*': return self.obj_lv(self.eval(e['e'], st, fr))
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            self.eval(e, st, fr)
            return self.lval(e['e'], st, fr)
        if k == 'cast': return self.lval(e['e'], st, fr)
        if k == 'idx':
            b = self.lval(e['b'], st, fr)
            i = self.eval(e['i'], st, fr)
            if b is None: return None
            return (b[0], b[1] + (('i', tot(i)),))
        if k == 'opcall' and e['op'] in ('*', '->') and len(e['a']) == 1:
            v = self.eval(e['a'][0], st, fr)
            return self.obj_lv(v)
        if k == 'opcall' and e['op'] == '[]':
            b = self.lval(e['a'][0], st, fr)
            i = self.eval(e['a'][1], st, fr)
            if b is None: b = self.obj_lv(self.eval(e['a'][0], st, fr))
            return (b[0], b[1] + (('i', tot(i)),))
        if k == 'opcall' and e['op'] in ('=', '+=', '-=', '<<', '|=', '&='):
            if e['op'] == '<<' or not e.get('rp'):
                if chained(e['a'][0]):
                    l = self.lval(e['a'][0], st, fr)
                    self.eval(dict(e, a=[{'k': 'loc', 'loc': l}] + e['a'][1:]), st, fr)
                    return l
                self.eval(e, st, fr)
                return self.lval(e['a'][0], st, fr)
        if k == 'bin' and e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            self.eval(e, st, fr)
            return self.lval(e['a'][0], st, fr)
        if k == 'loc': return e['loc']
        if k == 'call' and chained(e):
            l = self.lval(e['o'], st, fr)
            self.eval(dict(e, o={'k': 'loc', 'loc': l}), st, fr)
            return l
        if k == 'call' and sh(e.get('fn', '')) in ('back', 'front', 'at') and e.get('o') is not None and not e.get('rp'):
            b = self.lval(e['o'], st, fr)
            if b is not None:
                m = sh(e['fn'])
                if m == 'at': i = self.eval(e['a'][0], st, fr)
                elif m == 'front': i = mk('int', 0)
                else: i = mk('last')
                return (b[0], b[1] + (('i', tot(i)),))
        if k == 'call' and sh(e.get('fn', '')) == 'get' and e.get('ta') and e.get('fn') == 'std::get':
            b = self.lval(e['a'][0], st, fr)
            if b is not None and e['ta'][0].isdigit(): return (b[0], b[1] + (('f', ('first', 'second', 'third')[int(e['ta'][0])] if int(e['ta'][0]) < 2 else 't' + e['ta'][0]),)) if False else None
        if k == 'call' and e.get('fn') in IDENTITY_FUNCS and len(e['a']) >= 1: return self.lval(e['a'][0], st, fr)
        if k == 'call' and e.get('rr') and (e.get('rp')):
            r = self.call(e, st, fr, want_lv=True)
            if isinstance(r, tuple): return r
            return self.obj_lv(r)
        if k == 'cond':
            c = self.evalb(e['c'], st, fr)
            if c is TRUE or c is FALSE: return self.lval(e['a'] if c is TRUE else e['b'], st, fr)
            a, b = (self.lval(x, st, fr) if x['k'] in ('var', 'mem', 'un', 'opcall', 'cond') else None for x in (e['a'], e['b']))
            if a is None or b is None: return None
            return (('C', c, a, b), ())
        return None

    def lval_or_obj(self, e, st, fr, arrow=False):
        if e is None or e['k'] == 'this': return self.this_lv(fr)
        if not arrow:
            l = self.lval(e, st, fr)
            if l is not None: return l
            return self.obj_lv(self.eval(e, st, fr))
        return self.obj_lv(self.eval(e, st, fr))

    def this_lv(self, fr):
        f = fr
        while f is not None:
            if f.this is not None: return f.this
            f = f.parent
        return (('O', mk('this')), ())

    # ---------------------------------------------------------------- expressions
    def evals(self, es, st, fr): return [self.eval(x, st, fr) for x in es]

    def evalb(self, e, st, fr): return simp(tob(self.eval(e, st, fr)), st.pc)

    def eval(self, e, st, fr):
        if e is None: return VOID
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            self.unknown('expression ' + k, e)
            return mk('unk', k)
        return m(e, st, fr)

    def e_str(self, e, st, fr): return mk('s', e.get('v', ''))

    def e_int(self, e, st, fr): return mk('int', e.get('v', 0))

    def e_chr(self, e, st, fr): return mk('chr', e['v'])

    def e_bool(self, e, st, fr): return TRUE if e['v'] else FALSE

    def e_null(self, e, st, fr): return NULL

    def e_zero(self, e, st, fr): return FALSE if is_bool(e.get('t')) else mk('int', 0)

    def e_enum(self, e, st, fr): return mk('enum', e['n'], e['v'])

    def e_this(self, e, st, fr):
        l = self.this_lv(fr)
        if l[0][0] == 'O' and not l[1]: return l[0][1]
        return mk('addr', l)

    def e_fref(self, e, st, fr): return mk('fref', e.get('fk') or e['fn'])

    def e_var(self, e, st, fr):
        n = e.get('g', '')
        if n.endswith('::npos'): return mk('npos')
        return self.read(st, self.lval(e, st, fr), e.get('t'))

    def e_mem(self, e, st, fr):
        v = self.read(st, self.lval(e, st, fr), e.get('t'))
        if is_bool(e.get('t')): return tob(v)
        return v

    def e_idx(self, e, st, fr):
        if is_charptr(e['b'].get('t', '')): return char_at(self.eval(e['b'], st, fr), self.eval(e['i'], st, fr))
        l = self.lval(e, st, fr)
        if l is None: return at(self.eval(e['b'], st, fr), self.eval(e['i'], st, fr))
        return self.read(st, l, e.get('t'))

    def e_cast(self, e, st, fr): return self.eval(e['e'], st, fr)

    def e_tobool(self, e, st, fr): return self.evalb(e['e'], st, fr)

    def e_other(self, e, st, fr):
        if e['cls'] in ('SourceLocExpr', 'PredefinedExpr'): return mk('s', '?')
        for c in e.get('ch', []):
            if 'e' in c or c.get('k') in ('call', 'opcall', 'ctor', 'var'):
                self.eval(c, st, fr) if not c.get('k') in ('block',) else None
        self.unknown('expression ' + e['cls'], e)
        return mk('unk', e['cls'])

    def e_throw(self, e, st, fr):
        v = self.eval(e['e'], st, fr) if e.get('e') else VOID
        self.event('throw', 'throw', (tot(v),), st, e)
        st.pc = FALSE
        return VOID

    def e_new(self, e, st, fr):
        if e.get('nt', '').endswith('Config') or e.get('nt', '') == 'binder::Config': return CFG
        v = self.eval(e['e'], st, fr) if e.get('e') else VOID
        return v if isinstance(v, T) and v.op == 'rec' else mk('new', e.get('nt', ''), tot(v))

    def e_delete(self, e, st, fr):
        self.eval(e['e'], st, fr)
        return VOID

    def e_cond(self, e, st, fr):
        c = self.evalb(e['c'], st, fr)
        if c is TRUE: return self.eval(e['a'], st, fr)
        if c is FALSE: return self.eval(e['b'], st, fr)
        s1, s2 = st.copy(st.pc & c), st.copy(st.pc & ~c)
        a = self.eval(e['a'], s1, fr)
        b = self.eval(e['b'], s2, fr)
        m = self.merge(s1, s2)
        if m is None: st.pc = FALSE
        else: st.pc, st.store = m.pc, m.store
        if s1.pc is FALSE: return b
        if s2.pc is FALSE: return a
        if is_bool(e.get('t')): a, b = tob(a), tob(b)
        return ite(c, a, b)

    def e_lambda(self, e, st, fr):
        caps = {}
        for c in e['caps']:
            if 'v' in c and not c.get('ref'): caps[c['v']] = self.read(st, self.var_lv(st, fr, c['v']), 'std::')
        for i in e.get('inits', []): caps[i['v']] = self.eval(i['e'], st, fr)
        fid = len(self.lams)
        self.lams[fid] = (e, fr, caps)
        return mk('lam', fid)

    def e_ilist(self, e, st, fr):
        t = e.get('t', '')
        if 'fields' in e:
            vs = []
            for i, f in enumerate(e['fields']):
                vs.append((f, tot(self.eval(e['a'][i], st, fr)) if i < len(e['a']) else EMPTY))
            return mk('rec', e['c'], tuple(vs))
        if len(e['a']) == 1 and not t.endswith(']') and not is_value_type(t) : return self.eval(e['a'][0], st, fr)
        return cat(*[mk('item', tot(self.eval(x, st, fr))) for x in e['a']]) if e['a'] else mk('nil')

    def e_un(self, e, st, fr):
        op = e['op']
        if op == '!': return ~self.evalb(e['e'], st, fr)
        if op == '*':
            if is_charptr(e['e'].get('t', '')): return char_at(self.eval(e['e'], st, fr), mk('int', 0))
            return self.read(st, self.obj_lv(self.eval(e['e'], st, fr)), e.get('t'))
        if op == '&':
            l = self.lval(e['e'], st, fr)
            if l is None: return self.eval(e['e'], st, fr)
            if l[0][0] == 'O' and not l[1]: return l[0][1]
            return mk('addr', l)
        if op == '-': return add(mk('int', 0), self.eval(e['e'], st, fr), -1)
        if op == '+': return self.eval(e['e'], st, fr)
        if op in ('++', '--'):
            l = self.lval(e['e'], st, fr)
            old = self.read(st, l, 'int') if l else self.eval(e['e'], st, fr)
            new = self.step(old, 1 if op == '++' else -1)
            if l: self.write(st, l, new, e)
            return old if e.get('post') else new
        v = self.eval(e['e'], st, fr)
        return mk('un', op, tot(v))

    def step(self, v, n):
        if isinstance(v, T) and v.op in ('begin', 'next', 'elem', 'itlv', 'first', 'find', 'end') and n == 1: return mk('next', v)
        if isinstance(v, B): v = mk('b', v)
        return add(v, mk('int', n))

    def e_bin(self, e, st, fr):
        op = e['op']
        l, r = e['a']
        if op in ('&&', '||'):
            a = self.evalb(l, st, fr)
            if a is (FALSE if op == '&&' else TRUE): return a
            s2 = st.copy(st.pc & (a if op == '&&' else ~a))
            before = s2.store.copy()
            b = self.evalb(r, s2, fr)
            if s2.store != before or s2.pc is FALSE:
                m = self.merge(s2, st.copy(st.pc & (~a if op == '&&' else a)))
                if m is None: st.pc = FALSE
                else: st.pc, st.store = m.pc, m.store
            return (a & b) if op == '&&' else (a | b)
        if op == ',':
            self.eval(l, st, fr)
            return self.eval(r, st, fr)
        if op == '=':
            v = self.eval(r, st, fr)
            lv = self.lval(l, st, fr)
            if is_bool(l.get('t')): v = tob(v)
            self.write(st, lv, v, e)
            return v
        if op in ('+=', '-=', '|=', '&=', '*=', '/=', '^=', '<<=', '>>=', '%='):
            v = self.eval(r, st, fr)
            lv = self.lval(l, st, fr)
            old = self.read(st, lv, l.get('t'))
            new = self.binop(op[:-1], old, v, l.get('t'), r.get('t'))
            self.write(st, lv, new, e)
            return new
        a = self.eval(l, st, fr)
        b = self.eval(r, st, fr)
        return simp(self.binop(op, a, b, l.get('t'), r.get('t')), st.pc)

    def binop(self, op, a, b, ta=None, tb=None):
        if op == '==': return eq(a, b)
        if op == '!=': return ~eq(a, b)
        if op == '<': return lt(tot(a), tot(b))
        if op == '>': return lt(tot(b), tot(a))
        if op == '<=': return ~lt(tot(b), tot(a))
        if op == '>=': return ~lt(tot(a), tot(b))
        if op == '+':
            if isinstance(a, T) and (a.op in ('begin', 'next', 'end', 'find') or a.op == 'elem' and a.a[0].op != 'irange') or isinstance(b, T) and (b.op in ('begin', 'next', 'end') or b.op == 'elem' and b.a[0].op != 'irange'): return mk('advance', tot(a), tot(b))
            return add(tot(a), tot(b))
        if op == '-' and isinstance(b, T) and b.op == 'begin' and isinstance(a, T):
            # the distance of an iterator from the start
            R = b.a[0]
            if a.op == 'begin' and a.a[0] is R: return mk('int', 0)
            if a.op == 'end' and a.a[0] is R: return size(rng_list(R))
            if a.op == 'elem' and a.a[0] is R: return position(R, a.a[1])
            if a.op == 'first' and a.a[0] is R: return ite(ex(R, a.a[1], a.a[2]), first('firstidx', R, a.a[1], a.a[2]), size(rng_list(R)))
        if op == '-':
            return add(tot(a), tot(b), -1)
        if op in ('|', '&', '^') and (is_bool(ta) or isinstance(a, B)) and (is_bool(tb) or isinstance(b, B)):
            x, y = tob(a), tob(b)
            return (x | y) if op == '|' else (x & y) if op == '&' else bite(x, ~y, y)
        a, b = tot(a), tot(b)
        if a.op in ('int', 'enum', 'chr') and b.op in ('int', 'enum', 'chr'):
            x, y = lin_of(a)[0], lin_of(b)[0]
            try:
                return mk('int', {'|': x | y, '&': x & y, '^': x ^ y, '*': x * y, '/': x // y if y else 0, '%': x % y if y else 0, '<<': x << y if y < 64 else 0, '>>': x >> y}[op])
            except KeyError: pass
        if op in ('|', '&', '^', '*') and a.id > b.id: a, b = b, a
        return mk('bin', op, a, b)

    # ---------------------------------------------------------------- constructors
    def e_ctor(self, e, st, fr):
        c, a = e['c'], e['a']
        if e.get('cm') and a:
            return self.eval(a[0], st, fr)
        real = [x for x in a if not x.get('defarg')]
        if c in ('std::basic_string', 'llvm::StringRef', 'llvm::Twine', 'std::basic_string_view'):
            if not real: return EMPTY
            if len(real) == 1: return self.eval(real[0], st, fr)
            vs = self.evals(real, st, fr)
            if len(vs) == 2 and isinstance(vs[0], T) and vs[0].op == 'int' and isinstance(vs[1], T) and vs[1].op == 'chr': return mk('s', chr(vs[1].a[0]) * vs[0].a[0])
            if len(vs) == 2 and isinstance(vs[0], T) and vs[0].op == 'begin' and isinstance(vs[1], T) and vs[1].op == 'end': return rng_list(vs[0].a[0])
            ts = [(a.get('t') or '') for a in real]
            if len(vs) in (2, 3) and isinstance(vs[0], T) and textual(ts[0]) and all(isnum(t) for t in ts[1:]):
                return subtext(tot(vs[0]), tot(vs[1]), tot(vs[2]) if len(vs) > 2 else NPOS) if c == 'std::basic_string' and 'char' not in ts[0].split('<')[0] else subtext(tot(vs[0]), mk('int', 0), tot(vs[1])) if len(vs) == 2 else mk('call', 'string', tuple(tot(v) for v in vs))
            return mk('call', 'string', tuple(tot(v) for v in vs))
        if c in ('std::vector', 'std::set', 'std::map', 'std::unordered_map', 'std::unordered_set', 'std::deque', 'std::list', 'llvm::SmallVector', 'llvm::DenseMap',
                 'llvm::StringMap', 'std::multimap', 'std::initializer_list', 'llvm::SmallSet', 'llvm::SmallPtrSet', 'llvm::DenseSet', 'std::array', 'llvm::ArrayRef', 'std::stack'):
            if not real: return mk('nil')
            vs = [self.eval(x, st, fr) for x in real]
            ordered = c in ('std::set', 'std::map', 'std::multimap')
            if len(vs) == 1:
                v = vs[0]
                if isinstance(v, T) and v.op in ('int',): return mk('nil') if c != 'std::vector' or v.a[0] == 0 else mk('call', 'vector', (v,))
                if c in ('std::map', 'std::unordered_map') and isinstance(v, T):
                    ps = []
                    for p in pieces(v):
                        if p.op == 'item' and p.a[0].op == 'tup': ps.append(mk('kv', p.a[0].a[0], p.a[0].a[1]))
                        elif p.op == 'item' and p.a[0].op == 'cat' and len(p.a[0].a[0]) == 2 and all(x.op == 'item' for x in p.a[0].a[0]): ps.append(mk('kv', p.a[0].a[0][0].a[0], p.a[0].a[0][1].a[0]))
                        else: ps.append(p)
                    return cat(*ps) if ps else mk('nil')
                return v
            if isinstance(vs[0], T) and vs[0].op == 'begin' and isinstance(vs[1], T) and vs[1].op == 'end' and vs[0].a[0] is vs[1].a[0]:
                l = rng_list(vs[0].a[0])
                return mk('setof', l) if ordered else l
            return mk('call', sh(c), tuple(tot(v) for v in vs))
        if c in ('std::pair', 'std::tuple'):
            if len(real) == 1:
                return self.eval(real[0], st, fr)
            return mk('tup', *[tot(self.eval(x, st, fr)) for x in real])
        if c in ('std::basic_ofstream', 'std::basic_ifstream', 'std::basic_fstream'):
            t = mk('stream', sh(c)[6:], tuple(tot(v) for v in self.evals(real, st, fr)))
            self.event('open', sh(c)[6:], t.a[1], st, e)
            self.here(t, e)
            return t
        if c in ('std::basic_ostringstream', 'std::basic_stringstream'):
            v = self.eval(real[0], st, fr) if real and isinstance(real[0], dict) and real[0].get('k') != 'enum' else EMPTY
            return v if isinstance(v, T) and v.op != 'bin' else EMPTY
        if c == 'llvm::raw_string_ostream':
            l = self.lval(real[0], st, fr)
            return mk('addr', l) if l else mk('unk', 'rso')
        if c in ('std::function', 'std::shared_ptr', 'std::unique_ptr', 'llvm::IntrusiveRefCntPtr', 'std::fpos', 'std::reverse_iterator', '__gnu_cxx::__normal_iterator', 'std::istreambuf_iterator'):
            if not real: return NULL if 'ptr' in c else mk('ctor0', sh(c))
            return self.eval(real[0], st, fr)
        if e.get('rp') or c in self.F.classes:
            return self.construct(e, c, a, st, fr)
        if c == 'std::runtime_error' and real: return mk('ctor', 'runtime_error', (tot(self.eval(real[0], st, fr)),))
        return mk('ctor', sh(c), tuple(tot(v) for v in self.evals(real, st, fr)))

    def construct(self, e, c, a, st, fr):
        """an object of a repository class: default member initialisers, then the constructor"""
        if c.endswith('::Config'): return CFG
        fields = self.class_fields(c, st)
        obj = mk('rec', c, tuple(fields))
        f = self.F.functions.get(e.get('fk', ''))
        if f is None or any(s[0] == f['fk'] for s in self.stack):
            if a: return mk('ctor', sh(c), tuple(tot(self.eval(x, st, fr)) for x in a))
            return obj
        tmp = ('L', 0, 'obj%d' % Frame.n)
        Frame.n += 1
        st.store[tmp] = obj
        self.invoke(f, e, a, st, fr, this=(tmp, ()))
        v = self.read(st, (tmp, ()))
        st.store = {k: x for k, x in st.store.items() if k[:3] != tmp}
        return v

    def class_fields(self, c, st):
        out = []
        cl = self.F.classes.get(c)
        if not cl: return out
        for b in cl.get('bases', []): out += self.class_fields(b, st)
        for f in cl.get('fields', []):
            if f.get('i') is not None:
                v = self.eval(f['i'], State(TRUE, {}), Frame('init'))
            elif is_value_type(f.get('t')) and not f.get('t', '').startswith(('int', 'bool', 'unsigned', 'long', 'char', 'size_t')):
                v = EMPTY if 'basic_string' in f['t'] or f['t'].startswith('std::string') else mk('nil')
            else: continue
            out.append((f['n'], tot(v)))
        return out

    # ---------------------------------------------------------------- calls
    def e_loc(self, e, st, fr): return self.read(st, e['loc'])

    def e_call(self, e, st, fr):
        if e.get('o') is not None and not e.get('rp') and chained(e['o']):
            # the object is changed once, before it is changed again
            l = self.lval(e['o'], st, fr)
            if l is not None: e = dict(e, o={'k': 'loc', 'loc': l})
        return self.call(e, st, fr)

    def e_opcall(self, e, st, fr):
        op, a, fn = e['op'], e['a'], e.get('fn', '')
        if op == '()' and fn.startswith('fmt::detail::udl'):
            f = self.eval(a[0], st, fr)
            return self.fmt(f, [self.eval(x, st, fr) for x in a[1:]])
        if op == '()':
            v = self.eval(a[0], st, fr)
            return self.call_value(v, a[1:], e, st, fr)
        if e.get('rp') and e.get('fk') in self.F.functions and op not in ('<<',):
            return self.call(e, st, fr)
        if op in ('*', '->') and len(a) == 1: return self.read(st, self.obj_lv(self.eval(a[0], st, fr)), e.get('t')) if self.is_addr(a[0], st, fr) else self.eval(a[0], st, fr)
        if op in ('++', '--'):
            l = self.lval(a[0], st, fr)
            old = self.read(st, l, 'int') if l else self.eval(a[0], st, fr)
            new = self.step(old, 1 if op == '++' else -1)
            if l: self.write(st, l, new, e)
            return old if len(a) == 2 else new
        if op in ('==', '!='):
            x, y = self.eval(a[0], st, fr), self.eval(a[1], st, fr)
            r = eq(x, y)
            return simp(r if op == '==' else ~r, st.pc)
        if op in ('<', '>', '<=', '>='):
            x, y = tot(self.eval(a[0], st, fr)), tot(self.eval(a[1], st, fr))
            ty = a[0].get('t', '')
            if 'basic_string' in ty:
                if op in ('>', '<='): x, y = y, x
                r = atom(mk('slt', x, y))
                return r if op in ('<', '>') else ~r
            return self.binop(op, x, y)
        if op == '!' and ('basic_ios' in fn or 'stream' in fn): return self.failed(tot(self.eval(a[0], st, fr)))
        if op == '!': return ~self.evalb(a[0], st, fr)
        if op == '[]':
            l = self.lval(e, st, fr)
            return self.read(st, l, e.get('t'))
        if op == '+' and len(a) == 2:
            x, y = self.eval(a[0], st, fr), self.eval(a[1], st, fr)
            if 'basic_string' in e.get('rt', '') or 'Twine' in e.get('rt', ''): return cat(self.strv(x), self.strv(y))
            return self.binop('+', x, y)
        if op == '-' and len(a) == 2: return self.binop('-', self.eval(a[0], st, fr), self.eval(a[1], st, fr))
        if op in ('=', '+=', '|=', '&=', '-='):
            v = self.eval(a[1], st, fr)
            l = self.lval(a[0], st, fr)
            if l is None: l = self.obj_lv(self.eval(a[0], st, fr))
            if op == '=':
                ty = a[0].get('t', '')
                new = self.strv(v) if 'basic_string' in ty else v
                if isinstance(new, T) and new is EMPTY and 'basic_string' not in ty and is_value_type(ty): new = mk('nil')
            elif op == '+=': new = cat(self.read(st, l, 'std::string'), self.strv(v))
            else: new = self.binop(op[:-1], self.read(st, l), v, a[0].get('t'), a[1].get('t'))
            self.write(st, l, new, e)
            return new
        if op in ('<<', '>>'): return self.shift(e, st, fr)
        if op == '&' and len(a) == 1: return self.eval(a[0], st, fr)
        vs = [self.eval(x, st, fr) for x in a]
        if op in ('|', '&', '^'): return self.binop(op, vs[0], vs[1])
        return self.opaque_call(sh(fn), vs, e, st, fr)

    def is_addr(self, n, st, fr):
        return False

    def strv(self, v):
        if isinstance(v, B): return mk('b', v)
        if v.op == 'chr': return mk('s', chr(v.a[0]) if 0 <= v.a[0] < 256 else '?')
        if v.op == 'nil': return EMPTY
        return v

    def fmt(self, f, args):
        if not is_str(f):
            if isinstance(f, T) and f.op == 'ite': return ite(f.a[0], self.fmt(f.a[1], args), self.fmt(f.a[2], args))
            return mk('call', 'format', (tot(f),) + tuple(tot(a) for a in args))
        s, out, i, n = f.a[0], [], 0, 0
        while i < len(s):
            if s[i] in '{}' and s[i:i + 2] in ('{{', '}}'):
                out.append(mk('s', s[i]))
                i += 2
            elif s[i] == '{':
                j = s.index('}', i) if '}' in s[i:] else len(s)
                k = s[i + 1:j]
                idx = n if k == '' else int(k) if k.isdigit() else None
                if k == '': n += 1
                out.append(self.fmtarg(args[idx]) if idx is not None and idx < len(args) else mk('badfmt', k))
                i = j + 1
            else:
                j = i
                while j < len(s) and s[j] not in '{}': j += 1
                if j == i:
                    out.append(mk('badfmt', s[i]))
                    j = i + 1
                else: out.append(mk('s', s[i:j]))
                i = j
        return cat(*out)

    def fmtarg(self, v):
        if isinstance(v, T) and v.op == 'int': return mk('s', str(v.a[0]))
        if isinstance(v, T) and v.op in ('lin', 'idx', 'size'): return mk('tostr', v)
        return self.strv(v)

    def shift(self, e, st, fr):
        """s << a << b: the operands one after the other, the stream once"""
        chain, x = [], e
        while True:
            while x.get('k') == 'cast': x = x['e']
            if x.get('k') in ('opcall', 'bin') and x.get('op') == e['op'] and len(x.get('a', ())) == 2 and (x is e or 'stream' in x.get('t', '') or 'stream' in x['a'][0].get('t', '')):
                chain.append(x)
                x = x['a'][0]
            else: break
        l = self.lval(x, st, fr)
        base = self.read(st, l, 'std::string') if l is not None else self.eval(x, st, fr)
        ty = x.get('t', '')
        for y in reversed(chain): base = self.shift1(y, l, base, ty, y['a'][1], st, fr)
        return base

    def shift1(self, e, l, base, ty, operand, st, fr):
        v = self.eval(operand, st, fr)
        if e['op'] == '>>':
            vl = self.lval(operand, st, fr)
            if vl: self.write(st, vl, mk('read', tot(base)), e)
            return base
        if isinstance(v, T) and v.op == 'fref': return base
        if isinstance(base, T) and base.op == 'addr':          # raw_string_ostream over a local string
            self.write(st, base.a[0], cat(self.read(st, base.a[0], 'std::string'), self.fmtarg(v)), e)
            return base
        if isinstance(base, T) and base.op in ('stream', 'mutstream'):
            self.event('write', 'stream', (base, self.fmtarg(v)), st, e)
            self.epoch[base] = 'written'
            return base
        if isinstance(base, T) and base.op == 'call' and base.a[0] in ('outs', 'errs', 'dbgs') or isinstance(base, T) and base.op == 'g' and base.a[0] in ('cout', 'cerr', 'clog'):
            self.event('log', base.a[0], (tot(v),), st, e)
            return base
        if l is not None and ('stringstream' in ty or 'ostream' in ty or 'raw_string' in ty):
            if base.op == 'uninit' : base = EMPTY
            self.write(st, l, cat(base, self.fmtarg(v)), e)
            return cat(base, self.fmtarg(v))
        if 'ostream' in ty or 'stream' in ty:
            self.event('write', 'stream', (tot(base), tot(v)), st, e)
            return base
        return self.binop('<<', base, v)

    def call_value(self, v, args, e, st, fr):
        if isinstance(v, T) and v.op == 'lam': return self.call_lambda(v, args, e, st, fr)
        if isinstance(v, T) and v.op == 'fref' and v.a[0] in self.F.functions:
            return self.invoke(self.F.functions[v.a[0]], e, args, st, fr)
        vs = [self.eval(x, st, fr) for x in args]
        self.event('callvalue', '?', (tot(v),) + tuple(tot(x) for x in vs), st, e)
        return mk('call', '()', (tot(v),) + tuple(tot(x) for x in vs))

    def call_lambda(self, v, args, e, st, fr, values=None):
        node, pfr, caps = self.lams[v.a[0]]
        f = Frame('lambda', parent=pfr, file=self.stack[-1][1] if self.stack else None)
        for k, x in caps.items():
            st.store[('L', f.id, k)] = x
            f.vars.add(k)
        self.bindparams(node['params'], args, st, fr, f, values)
        name = 'lambda'
        self.stack.append((name, self.stack[-1][1] if self.stack else '?', node.get('l')))
        try:
            return self.run_body(node['body'], st, f)
        finally:
            self.stack.pop()

    def bindparams(self, params, args, st, fr, f, values=None):
        for i, p in enumerate(params):
            key = ('L', f.id, p['v'])
            f.vars.add(p['v'])
            if values is not None:
                if i < len(values):
                    v = values[i]
                    if isinstance(v, tuple): st.store[key] = ('&', v)
                    else: st.store[key] = v
                continue
            a = args[i] if i < len(args) else p.get('def')
            if a is None:
                st.store[key] = mk('uninit', p['n'])
                continue
            if p.get('ref'):
                l = self.lval(a, st, fr) if a.get('k') != 'ctor' else None
                if l is not None:
                    if l[1] and any(x[0] == 'i' for x in l[1]) and p['ref'] == 2:
                        st.store[key] = self.read(st, l, p.get('t'))
                    else: st.store[key] = ('&', l)
                    continue
            v = self.eval(a, st, fr)
            if is_bool(p.get('t')): v = tob(v)
            elif 'basic_string' in p.get('t', ''): v = self.strv(v)
            st.store[key] = v

    def invoke(self, f, e, args, st, fr, this=None, want_lv=False, values=None):
        self.analysed.add(f['fk'])
        nf = Frame(f['fk'], this=this, ret_ref=bool(f.get('rr')) and want_lv, file=f['f'], cls=f.get('cls'))
        self.bindparams(f['params'], args, st, fr, nf, values)
        self.stack.append((f['fk'], f['f'], f['l']))
        try:
            for i in f.get('inits') or []:
                if i.get('e') is None: continue
                if i.get('n'):
                    v = self.eval(i['e'], st, nf)
                    self.write(st, (this[0], this[1] + (('f', i['n']),)), v, i)
                elif i.get('base'):
                    b = i['e']
                    bf = self.F.functions.get(b.get('fk', '')) if isinstance(b, dict) else None
                    if bf is not None and b.get('k') == 'ctor': self.invoke(bf, b, b['a'], st, nf, this=this)
            return self.run_body(f['body'], st, nf)
        finally:
            self.stack.pop()

    def run_body(self, body, st, nf):
        fl = Flow()
        s0 = st.copy()
        end = self.exec(body, s0, nf, fl)
        outs = []
        if end is not None and end.pc is not FALSE: outs.append((end, VOID))
        outs += [(s, v) for s, v in fl.rets if s.pc is not FALSE]
        if not outs:
            st.pc = FALSE
            return VOID
        S, V = None, None
        for s, v in outs:
            if S is None: S, V = s, v
            else:
                if V is not v:
                    if isinstance(V, tuple): V = self.read(S, V)
                    if isinstance(v, tuple): v = self.read(s, v)
                    pc = S.pc | s.pc
                    V = v if V is VOID and v is not VOID and False else ite(constrain(S.pc, pc), V, v)
                S = self.merge(S, s)
        st.pc = S.pc
        st.store = {k: x for k, x in S.store.items() if not (k[0] == 'L' and k[1] == nf.id)} if not self.has_escaping(nf) else S.store
        return V

    def has_escaping(self, nf): return any(l[1] is nf for l in self.lams.values())

    # the object a call acts on, as lvalue
    def call_obj(self, e, st, fr):
        return self.lval_or_obj(e.get('o'), st, fr, e.get('arrow'))

    def call(self, e, st, fr, want_lv=False):
        fn = e.get('fn')
        args = e.get('a', [])
        if fn is None:
            v = self.eval(e['ce'], st, fr) if e.get('ce') else mk('unk', 'callee')
            return self.call_value(v, args, e, st, fr)
        if e.get('udl'): return mk('s', e.get('v', ''))
        if fn == 'fmt::format': return self.fmt(self.eval(args[0], st, fr), [self.eval(x, st, fr) for x in args[1:]])
        name = sh(fn)
        if fn.endswith('Config::get') and not args: return CFG
        if e.get('rp'):
            f = self.F.functions.get(e.get('fk'))
            if fn in ('binder::begins_with', 'binder::ends_with') and len(args) == 2 and e.get('o') is None:
                x, y = self.strv(self.eval(args[0], st, fr)), self.strv(self.eval(args[1], st, fr))
                return simp(prefix(x, y) if fn.endswith('begins_with') else suffix(x, y), st.pc)
            virt = e.get('vi') and not e.get('nonvirt') and self.F.overriders.get(e.get('fk'))
            if virt and e.get('o') is not None:
                l = self.call_obj(e, st, fr)
                v = st.store.get(l[0]) if not l[1] else None
                cls = v.a[0] if isinstance(v, T) and v.op == 'rec' else None
                f = None
                if cls:
                    for fk in self.F.overriders[e['fk']]:
                        if self.F.functions[fk].get('cls') == cls: f = self.F.functions[fk]
            if f is not None and name not in self.stop and not any(s[0] == f['fk'] for s in self.stack) and len(self.stack) < self.max_depth:
                this = self.call_obj(e, st, fr) if (e.get('o') is not None or (e['k'] == 'call' and f.get('cls') and not f.get('st') and e.get('o') is None)) else None
                a = args
                if e['k'] == 'opcall' and f.get('cls'):
                    this = self.lval_or_obj(args[0], st, fr)
                    a = args[1:]
                return self.invoke(f, e, a, st, fr, this=this, want_lv=want_lv)
            vs = [self.argv(x, st, fr) for x in args]
            obj = None
            if e.get('o') is not None:
                l = self.call_obj(e, st, fr)
                obj = l[0][1] if l[0][0] == 'O' and not l[1] else self.read(st, l)
            r = self.opaque_call(name, ([obj] if obj is not None else []) + vs, e, st, fr)
            if e.get('o') is not None and (l[0][0] == 'L' or l[0][0] == 'O' and not l[1] and l[0][1].op in ('rec', 'new')) and not e.get('cm'):
                self.write(st, l, mk('mut', name, tot(obj), tuple(tot(v) for v in vs)), e)
            return r
        # library calls
        h = self.library(e, fn, name, args, st, fr)
        if h is not None: return h
        vs = [self.argv(x, st, fr) for x in args]
        if e.get('o') is not None:
            l = self.call_obj(e, st, fr)
            o = self.read(st, l, e['o'].get('t'))
            if not e.get('cm') and not self.clangish(fn):
                new = mk('mut', name, tot(o), tuple(tot(v) for v in vs))
                self.event('mutate', name, (tot(o),) + tuple(tot(v) for v in vs), st, e)
                self.write(st, l, new, e)
            vs = [o] + vs
        nm = name
        if e.get('ta') and name in ('hasAttr', 'getAs', 'castAs', 'getAttr', 'newFrontendActionFactory', 'make_shared', 'getDeclAs'): nm = name + '<' + ','.join(t.split('::')[-1] for t in e['ta'][:1]) + '>'
        if nm == 'isPureVirtual': nm = 'isPure'
        if nm == 'getName': nm = 'getNameAsString'
        if nm == 'isFunctionPointerType' : pass
        if e.get('nr') or fn in NORETURN:
            if fn != '__assert_fail': self.event('exit', name, [tot(v) for v in vs], st, e)
            st.pc = FALSE
            return VOID
        if fn.startswith('std::') and nm not in STD_KNOWN: STD_NAMES.add(nm)
        return self.opaque_call(nm, vs, e, st, fr, pure=self.clangish(fn))

    def clangish(self, fn): return fn.startswith(('clang::', 'llvm::')) and not fn.startswith('llvm::raw_')

    def argv(self, x, st, fr):
        """argument of an opaque call: the object's identity, or its content for strings and containers"""
        if x.get('k') == 'lambda': return self.eval(x, st, fr)
        return self.eval(x, st, fr)

    def opaque_call(self, name, vs, e, st, fr, pure=False):
        pm = e.get('pm') or []
        args = e.get('a', [])
        if e['k'] == 'opcall' and len(pm) < len(args): pm = ['v'] * (len(args) - len(pm)) + pm
        n = len(vs) - len(args)
        ts = [tot(v) for v in vs]
        outs = [i for i in range(len(args)) if i < len(pm) and (pm[i] == 'r' or pm[i] == 'P' and args[i].get('k') == 'un' and args[i].get('op') == '&') and not (name in ('make_shared', 'make_pair', 'make_tuple', 'emplace'))]
        ins = tuple(t for i, t in enumerate(ts) if not (i - n in outs and pure))
        t = mk('call', name, ins)
        self.here(t, e)
        self.event('call', name, ts, st, e)
        for i in outs:
            l = self.lval(args[i], st, fr) if args[i].get('k') != 'un' else self.lval(args[i]['e'], st, fr)
            if l is None: continue
            ty = args[i].get('t', '')
            if l[0][0] == 'O' and not l[1] and not is_value_type(ty): continue     # an unknown object keeps its identity
            if not is_value_type(ty) and not ty.endswith('*') and not (l[0][0] == 'L' and isinstance(self.read(st, l), T) and self.read(st, l).op in ('rec', 'out', 'lv')): continue
            self.write(st, l, mk('out', name, i, ins), e)
        if is_bool(e.get('rt')) or is_bool(e.get('t')): return simp(self.spread(name, ins, True), st.pc)
        return simp(self.spread(name, ins, False), st.pc)

    def spread(self, name, ins, boolean):
        """name(ins), with alternatives among the arguments turned into alternatives of the result"""
        n = sum(1 for x in ins if x.op == 'ite')
        if 0 < n <= 3:
            for i, x in enumerate(ins):
                if x.op == 'ite':
                    c, a, b = x.a
                    return ite(c, self.spread(name, ins[:i] + (a,) + ins[i + 1:], boolean), self.spread(name, ins[:i] + (b,) + ins[i + 1:], boolean))
        if name == 'isNull' and boolean and len(ins) == 1:
            v = ins[0]
            if v.op == 'call' and v.a[0] == 'getPointeeType' and len(v.a[1]) == 1:
                # only such types have a pointee
                q = lambda n: atom(mk('call', n, v.a[1]))
                return ~(q('isPointerType') | q('isReferenceType') | q('isMemberPointerType'))
            if v.op == 'ctor' and v.a[0] == 'QualType' and not v.a[1]: return TRUE
        if name == 'isValid' and boolean and len(ins) == 1: return ~self.spread('isInvalid', ins, True)
        t = clang_call(name, ins)
        return atom(t) if boolean else t

    # ---------------------------------------------------------------- library knowledge
    def range_of(self, kind, obj, fn=''):
        k = RANGES.get(kind)
        if k and k[0] == 'spec' and '::ClassTemplateDecl::' in fn: k = ('cspec', None)
        return None if k is None else (mk('range', k[0], tot(obj)), k[1])

    def library(self, e, fn, name, args, st, fr):
        o = e.get('o')
        if fn in NORETURN: return None
        if fn in ('llvm::isa', 'llvm::isa_and_nonnull', 'llvm::isa_and_present'):
            ts = [t for t in e['ta']]
            x = self.eval(args[0], st, fr)
            r = self.isa(ts[0], x)
            for t in ts[1:-1]:
                if t.startswith('clang::'): r = r | self.isa(t, x)
            if fn != 'llvm::isa': r = r & tob(x)
            return simp(r, st.pc)
        if fn in ('llvm::dyn_cast', 'llvm::dyn_cast_or_null', 'llvm::dyn_cast_if_present'):
            x = self.eval(args[0], st, fr)
            r = ite(self.isa(e['ta'][0], x), x, NULL)
            if fn != 'llvm::dyn_cast': r = ite(tob(x), r, NULL)
            return simp(r, st.pc)
        if fn in IDENTITY_FUNCS and args: return self.eval(args[0], st, fr)
        if o is None:
            return self.libfunc(e, fn, name, args, st, fr)
        if e.get('cv'):       # conversion operators
            v = self.eval(o, st, fr)
            if 'bool' in name and 'basic_ios' in fn: return ~self.failed(tot(v))
            return tob(v) if name.endswith('operator bool') else v
        l = self.call_obj(e, st, fr)
        ot = o.get('t', '')
        V = lambda: self.read(st, l, 'std::vector' if not self.clangish(fn) or is_value_type(ot) else ot)
        A = lambda i: self.eval(args[i], st, fr)
        real = [x for x in args if not x.get('defarg')]
        if fn.startswith('clang::'):
            if name in ('getAs', 'castAs') and e.get('ta') and not real:
                c = e['ta'][0].replace('const ', '').split('::')[-1].rstrip(' *')
                if c in CANON_TYPES:
                    x = tot(V())
                    return x if name == 'castAs' else simp(ite(canon_isa(c, x), x, NULL), st.pc)
            if name.endswith('_begin') or name.endswith('_end'):
                k, isb = (name[:-6], True) if name.endswith('_begin') else (name[:-4], False)
                r = self.range_of(k, V(), fn)
                if r:
                    R = r[0] if r[1] is None else mk('fil', r[0], r[1])
                    return mk('begin' if isb else 'end', R)
            if not args and name in RANGES and name in ('decls', 'methods', 'ctors', 'fields', 'bases', 'vbases', 'shadows', 'specializations', 'parameters', 'enumerators', 'friends', 'attrs', 'redecls'):
                r = self.range_of(name, V(), fn)
                return mk('list', r[0] if r[1] is None else mk('fil', r[0], r[1]))
            if name == 'getMinRequiredArguments' and not args:
                # parameters with default arguments come last
                R = mk('range', 'param', tot(V()))
                d = atom(mk('call', 'hasDefaultArg', (elem(R, 1),)))
                return ite(ex(R, 1, d), first('firstidx', R, 1, d), size(mk('list', R)))
            if name in ('getNumParams', 'param_size') and not args: return size(mk('list', mk('range', 'param', tot(V()))))
            if name == 'param_empty' and not args: return ~nonempty(mk('list', mk('range', 'param', tot(V()))))
            if name in ('getParamDecl', 'getParamType') and args:
                x = at(mk('list', mk('range', 'param', tot(V()))), A(0))
                return x
            if name == 'getNumBases' and not args: return size(mk('list', mk('range', 'base', tot(V()))))
            if 'TemplateArgumentList' in fn:
                lst = V()
                if name == 'size': return size(lst)
                if name in ('get', 'operator[]'): return at(lst, A(0))
                if name in ('asArray', 'data'): return lst
            if name in IDENTITY_METHODS and not args and name not in ('get', 'data', 'str', 'string', 'base'): return V()
            return None
        # containers, strings, iterators
        if name in ('begin', 'cbegin', 'rbegin', 'end', 'cend', 'rend') and not args:
            v = V()
            if 'basic_string' in fn or 'StringRef' in fn: TEXTS.add(v)
            R = v.a[0] if v.op == 'list' else rng(v)
            if name[0] == 'r' or name == 'rend': R = mk('rev', R)
            return mk('begin' if 'begin' in name else 'end', R)
        if fn.startswith(('std::', 'llvm::', '__gnu')):
            r = self.container(e, fn, name, args, real, l, V, A, st, fr, ot)
            if r is not None: return r
        return None

    def container(self, e, fn, name, args, real, l, V, A, st, fr, ot):
        isstr = 'basic_string' in fn or 'StringRef' in fn or 'SmallString' in fn
        stream = 'stream' in fn or 'basic_ios' in fn or 'basic_ostream' in fn or 'basic_istream' in fn
        W = lambda v: self.write(st, l, v, e)
        if isstr and name in ('size', 'length') and isinstance(V(), T): TEXTS.add(V())
        if stream:
            v = V()
            if name == 'str':
                if real:
                    W(self.strv(A(0)))
                    return VOID
                if v.op == 'addr': return self.read(st, v.a[0], 'std::string')
                return EMPTY if v.op == 'uninit' else v
            if name == 'tellp': return size(v)
            if name == 'flush':
                self.event('flush', 'flush', (tot(v),), st, e)
                self.epoch[tot(v)] = 'closed'
                return v
            if name in ('fail', 'operator!'): return self.failed(tot(v))
            if name == 'bad': return atom(mk('bad', self.failed(tot(v))))
            if name == 'good': return ~self.failed(tot(v))
            if name == 'rdstate': return tot(self.failed(tot(v)))
            if name == 'is_open': return ~atom(mk('fail', tot(v)))
            if name in ('open',):
                t = mk('stream', 'ofstream' if 'ofstream' in fn else 'ifstream', tuple(tot(self.eval(x, st, fr)) for x in real))
                self.event('open', t.a[0], t.a[1], st, e)
                W(t)
                return VOID
            if name == 'close':
                self.event('close', 'close', (tot(v),), st, e)
                self.epoch[tot(v)] = 'closed'
                return VOID
            if name in ('write', 'put'):
                self.event('write', 'stream', (tot(v), tot(A(0))), st, e)
                self.epoch[tot(v)] = 'written'
                return v
            if name == 'rdbuf': return v
            return None
        if name == 'empty': return simp(~nonempty(V()), st.pc)
        if name in ('size', 'length'): return simp(size(V()), st.pc)
        if name == 'size_in_bytes': return size(V())
        if name in ('c_str', 'data', 'str', 'string', 'base', 'toStringRef', 'getValue', 'get') and not real: return V()
        if name in ('clear',):
            W(EMPTY if isstr else mk('nil'))
            return VOID
        if name in ('push_back', 'emplace_back', 'push', 'push_front') and real:
            v = A(0)
            if len(real) > 1: v = mk('tup', *[tot(self.eval(x, st, fr)) for x in real])
            old = V()
            if isstr: W(cat(self.strv(old), self.strv(v)))
            else:
                self.event('insert', name, (tot(old), tot(v)), st, e, lv=l)
                W(cat(mk('item', tot(v)), old) if name == 'push_front' else cat(old, mk('item', tot(v))))
            return VOID
        if name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign') and not isstr:
            old = V()
            mp = 'map' in fn.lower()
            vs = [self.eval(x, st, fr) for x in real]
            if len(vs) == 2 and isinstance(vs[0], T) and vs[0].op == 'begin' and isinstance(vs[1], T) and vs[1].op == 'end' and vs[0].a[0] is vs[1].a[0]:
                W(cat(old, rng_list(vs[0].a[0])))
                return VOID
            if len(vs) == 3 and isinstance(vs[1], T) and vs[1].op == 'begin' and isinstance(vs[2], T) and vs[2].op == 'end':
                self.event('insert', name, (tot(old),) + tuple(tot(v) for v in vs), st, e, lv=l)
                W(cat(old, rng_list(vs[1].a[0])) if isinstance(vs[0], T) and vs[0].op == 'end' else mk('mut', 'insert', tot(old), tuple(tot(v) for v in vs)))
                return VOID
            if mp:
                if len(vs) == 1:
                    k, v = tget(tot(vs[0]), 0), tget(tot(vs[0]), 1)
                    if vs[0].op == 'cat' and all(p.op == 'item' for p in vs[0].a[0]) and len(vs[0].a[0]) == 2: k, v = vs[0].a[0][0].a[0], vs[0].a[0][1].a[0]
                elif len(vs) >= 2: k, v = vs[0], vs[1]
                else: return None
                new = cat(old, mk('kv', tot(k), tot(v)))
                absent = ~has(old, tot(k))
                self.event('insert', name, (tot(old), tot(k), tot(v)), st, e, lv=l)
                W(new if name == 'insert_or_assign' else ite(absent, new, old) if absent is not TRUE and absent is not FALSE and False else new)
                it = mk('find', rng(old), tot(k))
                return mk('tup', ite(simp(absent, st.pc), mk('find', rng(new), tot(k)), it), mk('b', absent))
            v = vs[-1] if vs else VOID
            if 'vector' in fn.lower() or 'list' in fn or 'deque' in fn: W(mk('mut', 'insert', tot(old), tuple(tot(x) for x in vs)))
            else:
                self.event('insert', name, (tot(old), tot(v)), st, e, lv=l)
                absent = ~has(old, tot(v))
                W(cat(old, mk('item', tot(v))))
                return mk('tup', mk('find', rng(old), tot(v)), mk('b', absent))
            return VOID
        if name in ('count', 'contains') and len(real) == 1 and not isstr:
            h = simp(has(V(), tot(A(0))), st.pc)
            return h if name == 'contains' else (mk('countof', h) if h not in (TRUE, FALSE) else mk('int', 1 if h is TRUE else 0))
        if name == 'find' and not isstr and len(real) == 1:
            v = V()
            return mk('find', rng(v), tot(A(0)))
        if name in ('at', 'lookup') and len(real) == 1: return simp(at(V(), A(0)), st.pc)
        if name == 'front': return at(V(), mk('int', 0))
        if name == 'back':
            def back(v):
                ps = pieces(v)
                if ps and ps[-1].op == 'item': return ps[-1].a[0]
                if ps and ps[-1].op == 's': return mk('chr', ord(ps[-1].a[0][-1]))
                return at(v, mk('last'))
            return dist(V(), back)
        if name == 'pop_back':
            v = V()
            ps = pieces(v)
            if ps and ps[-1].op == 's': W(cat(*ps[:-1], mk('s', ps[-1].a[0][:-1])))
            elif ps and ps[-1].op == 'item': W(cat(*ps[:-1]) if ps[:-1] else mk('nil'))
            elif isstr and chop(v) is not None: W(chop(v))
            elif isstr: W(subtext(v, mk('int', 0), add(size(v), mk('int', 1), -1)))
            else: W(mk('call', 'pop_back', (v,)))
            return VOID
        if name == 'reserve' or name == 'shrink_to_fit': return VOID
        if isstr:
            s = lambda i: self.strv(A(i))
            if name == 'append' and len(real) == 1:
                W(cat(V(), s(0)))
                return V()
            if name == 'append' and len(real) == 2:
                x, y = A(0), A(1)
                W(cat(V(), mk('s', chr(y.a[0]) * x.a[0]) if x.op == 'int' and y.op == 'chr' else mk('call', 'string', (tot(x), tot(y)))))
                return V()
            if name == 'assign' and len(real) == 1:
                W(s(0))
                return V()
            if name in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
                p = s(0)
                pos = self.eval(args[1], st, fr) if len(args) > 1 else mk('int', 0)
                if name == 'rfind' and pos is mk('int', 0): return alts('rfind0', V(), p)
                if name in ('find', 'rfind'): return mk('sfind' if name == 'find' or len(real) == 1 and False else 'sfind', V(), p, tot(pos)) if name == 'find' else mk('srfind', V(), p, tot(pos))
                return mk('call', name, (V(), p, tot(pos)))
            if name == 'compare' and len(real) == 3:
                a0, a1, a2 = A(0), A(1), s(2)
                v = V()
                if a0 is mk('int', 0) and a1 is size(a2): return mk('compare0', v, a2)
                if a1 is size(a2) and a0 is add(size(v), a1, -1): return mk('comparez', v, a2)
                if isinstance(v, T) and v.op == 'ite' and isinstance(a0, T) and a0.op == 'ite' and a0.a[0] is v.a[0]:
                    return ite(v.a[0], self.cmp3(v.a[1], a0.a[1], a1, a2), self.cmp3(v.a[2], a0.a[2], a1, a2))
                return mk('call', 'compare', (v, tot(a0), tot(a1), a2))
            if name == 'compare' and len(real) == 1: return mk('call', 'compare', (V(), s(0)))
            if name in ('startswith', 'starts_with', 'consume_front'): return prefix(V(), s(0))
            if name in ('endswith', 'ends_with'): return suffix(V(), s(0))
            if name in ('equals',): return eq(V(), s(0))
            if name in ('contains',): return atom(mk('substr?', V(), s(0)))
            if name == 'substr':
                v = V()
                a0 = A(0) if real else mk('int', 0)
                a1 = A(1) if len(real) > 1 else mk('npos')
                if is_str(v) and a0.op == 'int' and a1.op in ('int', 'npos'): return mk('s', v.a[0][a0.a[0]:] if a1.op == 'npos' else v.a[0][a0.a[0]:a0.a[0] + a1.a[0]])
                if a0 is mk('int', 0) and a1 is add(size(v), mk('int', 1), -1) and chop(v) is not None: return chop(v)
                return subtext(v, tot(a0), tot(a1))
            if name == 'drop_front': return subtext(V(), tot(A(0)) if real else mk('int', 1), NPOS)
            if name == 'drop_back': return subtext(V(), mk('int', 0), add(size(V()), tot(A(0)) if real else mk('int', 1), -1))
            if name == 'resize':
                a0 = A(0)
                v = V()
                if a0 is mk('int', 0): W(EMPTY)
                elif len(real) == 1 and a0 is add(size(v), mk('int', 1), -1) and chop(v) is not None: W(chop(v))
                else: W(subtext(v, mk('int', 0), tot(a0)) if len(real) == 1 else mk('call', 'resize', (v, tot(a0), tot(A(1)))))
                return VOID
            if name == 'erase':
                v = V()
                vs = [tot(self.eval(x, st, fr)) for x in real]
                if len(vs) == 2 and vs[0].op == 'removed' and vs[1].op == 'end': W(mk('call', 'remove_all', (v, vs[0].a[1])))
                elif isinstance(v, T) and vs and all(numeric(x) for x in vs): W(cat(subtext(v, mk('int', 0), vs[0]), subtext(v, add(vs[0], vs[1]), NPOS) if len(vs) == 2 and vs[1] is not NPOS else EMPTY))
                elif isinstance(v, T) and not vs: W(EMPTY)
                elif isinstance(v, T) and len(vs) == 1 and vs[0].op == 'begin': W(subtext(v, mk('int', 1), NPOS))
                else: W(mk('call', 'erase', (v,) + tuple(vs)))
                return V()
            if name in ('replace', 'insert'):
                v = V()
                vs = [tot(self.eval(x, st, fr)) for x in real]
                k = 2 if name == 'replace' else 1
                if isinstance(v, T) and len(vs) == k + 1 and all(numeric(x) for x in vs[:k]) and (vs[0] is mk('int', 0) or vs[0] is size(v)):
                    W(cat(subtext(v, mk('int', 0), vs[0]), self.strv(vs[k]), subtext(v, add(vs[0], vs[1]) if k == 2 else vs[0], NPOS) if vs[k - 1] is not NPOS or k == 1 else EMPTY))
                    return V()
                W(mk('call', 'string::' + name, (v,) + tuple(tot(self.eval(x, st, fr)) for x in real)))
                return V()
        if name == 'erase' and real:
            v = V()
            vs = [tot(self.eval(x, st, fr)) for x in real]
            if len(vs) == 2 and vs[0].op == 'removed' and vs[1].op == 'end': W(mk('call', 'remove_all', (v, vs[0].a[1])))
            else: W(mk('call', 'erase', (v,) + tuple(vs)))
            return VOID
        if name == 'resize': # list
            W(mk('call', 'resize', (V(),) + tuple(tot(self.eval(x, st, fr)) for x in real)))
            return VOID
        if name == 'operator[]': return at(V(), A(0))
        if name == 'getKey': return tget(tot(V()), 0)
        return None

    def cmp3(self, v, a0, a1, a2):
        if a0 is mk('int', 0) and a1 is size(a2): return mk('compare0', v, a2)
        if a1 is size(a2) and a0 is add(size(v), a1, -1): return mk('comparez', v, a2)
        if isinstance(v, T) and v.op == 'ite' and isinstance(a0, T) and a0.op == 'ite' and a0.a[0] is v.a[0]:
            return ite(v.a[0], self.cmp3(v.a[1], a0.a[1], a1, a2), self.cmp3(v.a[2], a0.a[2], a1, a2))
        return mk('call', 'compare', (v, tot(a0), tot(a1), a2))

    def isa(self, ty, x):
        c = ty.replace('const ', '').split('::')[-1].rstrip(' *')
        if isinstance(x, B): x = mk('b', x)
        if x is NULL: return FALSE
        if x.op == 'ite':
            return bite(x.a[0], self.isa(ty, x.a[1]), self.isa(ty, x.a[2]))
        st = static_class(x)
        if st and c in supers(st): return TRUE
        if c in CANON_TYPES and x.op == 'call' and x.a[0] == 'getCanonicalType' and len(x.a[1]) == 1: return canon_isa(c, x.a[1][0])
        return atom(mk('isa', c, x))

    def libfunc(self, e, fn, name, args, st, fr):
        A = lambda i: self.eval(args[i], st, fr)
        if fn == 'std::to_string':
            v = A(0)
            if isinstance(v, T) and v.op == 'int': return mk('s', str(v.a[0]))
            return mk('tostr', tot(v))
        if fn in ('std::make_pair', 'std::make_tuple', 'std::tie', 'std::forward_as_tuple'): return mk('tup', *[tot(self.eval(x, st, fr)) for x in args])
        if fn == 'std::get':
            i = e['ta'][0].rstrip('UL')
            if i.isdigit(): return tget(tot(A(0)), int(i))
            return None
        if fn in ('std::begin', 'std::cbegin', 'std::end', 'std::cend', 'std::rbegin', 'std::rend'):
            v = A(0)
            R = v.a[0] if v.op == 'list' else rng(v)
            if 'std::r' in fn: R = mk('rev', R)
            return mk('begin' if 'begin' in name else 'end', R)
        if fn in ('std::find', 'llvm::find', 'llvm::is_contained', 'std::count'):
            if fn.startswith('std'):
                b, x = A(0), tot(A(2))
                if b.op == 'begin':
                    if fn == 'std::count': return mk('countof', has(b.a[0], x)) if b.a[0].op == 'range' else None
                    if b.a[0].op == 'range': return mk('find', b.a[0], x)
                    return mk('first', b.a[0], 1, eq(elem(b.a[0]), x))
                return mk('call', 'find', (b, tot(A(1)), x))
            v = A(0)
            R = v.a[0] if v.op == 'list' else rng(v)
            x = tot(A(1))
            return has(v, x) if name == 'is_contained' else mk('find', R, x)
        if fn in ('std::any_of', 'std::all_of', 'std::none_of', 'std::find_if', 'std::find_if_not', 'std::for_each', 'std::count_if', 'llvm::any_of', 'llvm::all_of', 'llvm::none_of', 'llvm::for_each', 'llvm::find_if'):
            if fn.startswith('std'): b, f = A(0), A(2)
            else:
                v = A(0)
                b, f = mk('begin', v.a[0] if v.op == 'list' else rng(v)), A(1)
            if isinstance(b, T) and b.op == 'begin' and isinstance(f, T) and f.op in ('lam', 'fref'):
                return self.algo(name, b.a[0], f, e, st, fr)
            if isinstance(f, T) and f.op == 'lam' and isinstance(b, T):
                R = mk('from', b)
                return self.algo(name, R, f, e, st, fr) if name != 'find_if' else self.algo(name, R, f, e, st, fr)
            return None
        if fn in ('std::remove', 'std::remove_if'):
            b, x = A(0), A(2)
            if isinstance(x, T) and x.op == 'lam':
                R = b.a[0] if b.op == 'begin' else mk('from', tot(b))
                d = 1 + sum(1 for r, _ in self.loops if r is R)
                s2 = st.copy()
                g = self.call_lambda(x, [], e, s2, fr, values=[elem(R, d)])
                return mk('removed', R, mk('b', tob(g)))
            return mk('removed', b.a[0] if b.op == 'begin' else tot(b), tot(x))
        if fn in ('std::min', 'std::max') and len(args) >= 2:
            x, y = tot(A(0)), tot(A(1))
            c = lt(y, x) if name == 'min' else lt(x, y)
            return ite(c, y, x)
        if fn == 'std::getline' and len(args) >= 2:
            l = self.lval(args[1], st, fr)
            s = A(0)
            if l: self.write(st, l, mk('line', tot(s)), e)
            return mk('getline', tot(s))
        if fn == 'std::swap': 
            l1, l2 = self.lval(args[0], st, fr), self.lval(args[1], st, fr)
            if l1 and l2:
                x, y = self.read(st, l1, 'std::string'), self.read(st, l2, 'std::string')
                self.write(st, l1, y, e)
                self.write(st, l2, x, e)
                return VOID
        if fn in ('std::reverse', 'std::sort', 'std::rotate', 'std::stable_sort', 'std::unique'):
            b = A(0)
            vs = [tot(self.eval(x, st, fr)) for x in args]
            self.event('call', name, vs, st, e)
            return mk('call', name, tuple(vs))
        if fn in ('std::next', 'std::prev', 'std::advance'): return mk('call', name, tuple(tot(self.eval(x, st, fr)) for x in args))
        if fn == 'llvm::reverse':
            v = A(0)
            return mk('list', mk('rev', v.a[0] if v.op == 'list' else rng(v)))
        if fn == 'std::make_shared' or fn == 'std::make_unique':
            t = mk('new', (e.get('ta') or ['?'])[0].split('::')[-1], tuple(tot(self.eval(x, st, fr)) for x in args))
            self.here(t, e)
            self.event('call', 'new ' + t.a[0], t.a[1], st, e)
            return t
        if (fn[5:] if fn.startswith('std::') else fn) in ('isalnum', 'isalpha', 'isdigit', 'isspace', 'toupper', 'tolower', 'isupper', 'islower', 'ispunct', 'isxdigit'):
            v = tot(A(0))
            if name.startswith('is'): return atom(mk('call', name, (v,)))
            return mk('call', name, (v,))
        if fn == 'strlen': return size(A(0))
        if fn in ('std::copy', 'std::copy_if', 'std::transform') and len(args) == (3 if name == 'copy' else 4):
            tgt = self.inserter(args[2])
            b, n = A(0), A(1)
            l = self.lval(tgt, st, fr) if tgt is not None else None
            f = A(3) if len(args) > 3 else None
            if l is not None and isinstance(b, T) and isinstance(n, T) and b.op == 'begin' and n.op == 'end' and b.a[0] is n.a[0] and (f is None or isinstance(f, T) and f.op in ('lam', 'fref')):
                ty = tgt.get('t') or ''
                text = 'basic_string' in ty.split('<')[0] or ty.replace('const ', '').strip() in ('std::string', 'string')
                if text: TEXTS.add(rng_list(b.a[0]))

                def put(s, x):
                    v = self.call_value_s(f, x, e, s, fr) if f is not None else x
                    c = TRUE
                    if name == 'copy_if': c, v = simp(tob(v), s.pc), x
                    old = self.read(s, l, 'std::string' if text else 'std::vector')
                    new = cat(self.strv(old), self.strv(v)) if text else cat(old, mk('item', tot(v)))
                    if not text:
                        s3 = s.copy(s.pc & c)
                        self.event('insert', 'insert', (tot(old), tot(v)), s3, e, lv=l)
                    self.write(s, l, ite(c, new, old), e)
                self.each(mk('list', b.a[0]), st, fr, e, put)
                return mk('call', 'inserter', ())
        if fn == 'std::equal' and len(args) == 3:
            b, n, c = A(0), A(1), A(2)
            if all(isinstance(x, T) for x in (b, n, c)) and b.op == 'begin' and n.op == 'end' and b.a[0] is n.a[0]:
                p = rng_list(b.a[0])
                if c.op == 'begin': return prefix(rng_list(c.a[0]), p)
        if fn == 'std::accumulate': return None
        return None

    def each(self, lst, st, fr, e, f):
        """f(state, element) for every element of lst"""
        def body(s, x, fl):
            f(s, x)
            return s if s.pc is not FALSE else None
        if lst.op == 'list' and lst.a[0].op == 'range' and lst.a[0].a[0] == 'elems' and lst.a[0].a[1] not in TEXTS: lst = lst.a[0].a[1]
        cur = self.iterate_list(lst, st.copy(), fr, Flow(), body, e)
        if cur is None: st.pc = FALSE
        else: st.pc, st.store = cur.pc, cur.store

    def inserter(self, x):
        """the container expression an insert iterator argument appends to"""
        for _ in range(4):
            if x.get('k') == 'call' and x.get('fn') in ('std::back_inserter', 'std::inserter') and x.get('a'): return x['a'][0]
            if x.get('k') == 'ctor' and len(x.get('a') or []) == 1: x = x['a'][0]
            elif isinstance(x.get('e'), dict): x = x['e']
            else: break
        return None

    def algo(self, name, R, f, e, st, fr):
        fil = None
        if R.op == 'fil': R, fil = R.a
        lst = rng_list(R)
        if name == 'for_each':
            self.each(mk('list', R) if fil is None else mk('list', mk('fil', R, fil)) if R.op != 'range' or R.a[0] != 'elems' else lst, st, fr, e, lambda s, x: self.call_value_s(f, x, e, s, fr))
            return VOID

        def pred(x, s):
            r = self.call_value_s(f, x, e, s, fr)
            return tob(r)

        def quant(l, s):
            if l.op in ('nil',) or l is EMPTY: return FALSE
            if l.op == 'cat':
                r = FALSE
                for p in l.a[0]: r = r | quant(p, s)
                return r
            if l.op == 'item': return pred(l.a[0], s)
            if l.op == 'ite': return bite(l.a[0], quant(l.a[1], s), quant(l.a[2], s))
            if l.op == 'star':
                d = l.a[1]
                return ex(l.a[0], d, quant(l.a[2], s))
            RR = l.a[0] if l.op == 'list' else rng(l)
            d = 1 + sum(1 for r, _ in self.loops if r is RR)
            self.loops.append((RR, d))
            s2 = s.copy()
            g = pred(elem(RR, d), s2)
            self.loops.pop()
            return ex(RR, d, g if fil is None else g & self.isa(fil, elem(RR, d)))
        neg = name in ('all_of', 'find_if_not')
        pred0 = pred
        if neg: pred = lambda x, s: ~pred0(x, s)
        src = lst if R.op == 'range' and R.a[0] == 'elems' else mk('list', R)
        q = quant(src, st)
        if name == 'any_of': return simp(q, st.pc)
        if name in ('all_of', 'none_of'): return simp(~q, st.pc)
        if name == 'count_if': return mk('countif', R, mk('b', q))
        if lst.op == 'item' or lst.op == 'cat' and all(p.op == 'item' for p in lst.a[0]):
            # written out: the first of the known elements
            r = mk('end', R)
            for p in reversed(pieces(lst)): r = ite(pred(p.a[0], st.copy()), p.a[0], r)
            return r
        d = 1 + sum(1 for r, _ in self.loops if r is R)
        self.loops.append((R, d))
        g = pred(elem(R, d), st.copy())
        self.loops.pop()
        return mk('first', R, d, g)

    def call_value_s(self, f, x, e, st, fr):
        if f.op == 'lam': return self.call_lambda(f, [], e, st, fr, values=[x])
        if f.op == 'fref' and f.a[0] in self.F.functions: return self.invoke(self.F.functions[f.a[0]], e, [], st, fr, values=[x])
        return mk('call', sh(f.a[0]), (tot(x),))

    # ---------------------------------------------------------------- statements
    def exec(self, s, st, fr, fl):
        """run s from st (owned); the state after it, or None"""
        if s is None: return st
        if st is None or st.pc is FALSE: return None
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            self.unknown('statement ' + s['k'], s)
            return st
        r = m(s, st, fr, fl)
        return None if r is None or r.pc is FALSE else r

    def s_null(self, s, st, fr, fl): return st

    def s_block(self, s, st, fr, fl):
        for x in s['s']:
            st = self.exec(x, st, fr, fl)
            if st is None: return None
        return st

    def s_expr(self, s, st, fr, fl):
        self.eval(s['e'], st, fr)
        return st

    def s_decl(self, s, st, fr, fl):
        for d in s['d']: self.declare(d, st, fr)
        return st

    def declare(self, d, st, fr):
        key = ('L', fr.id, d['v'])
        fr.vars.add(d['v'])
        if d.get('static'):
            if self.static_is_const(d):
                st.store[key] = self.init_value(d, st, fr)
            else:
                n = d['n']
                while any(m == n and v != d['v'] for v, m in self.static_vars.items()): n += "'"
                self.static_vars[d['v']] = n
                fr.vars.discard(d['v'])
                st.store.pop(key, None)
                if n not in self.statics: self.statics[n] = self.init_value(d, State(TRUE, {}), fr) if d.get('i') else None
            return
        if d.get('ref') and d.get('i'):
            l = self.lval(d['i'], st, fr)
            if l is not None:
                st.store[key] = ('&', l)
                return
        v = self.init_value(d, st, fr)
        for k in self.kids(st, key): del st.store[k]
        st.store[key] = v
        for i, b in enumerate(d.get('bind') or []):
            st.store[('L', fr.id, b)] = tget(tot(v), i)
            fr.vars.add(b)

    def init_value(self, d, st, fr):
        t = d.get('t', '')
        if d.get('i') is None: return mk('uninit', d['n'])
        v = self.eval(d['i'], st, fr)
        if is_bool(t): return tob(v)
        if 'basic_string' in t and not t.startswith(('std::vector', 'std::map', 'std::set', 'std::pair', 'std::tuple', 'std::unordered')): return self.strv(v) if isinstance(v, T) else v
        return v

    def static_is_const(self, d):
        """a function-local static that is never written after its initialisation"""
        if d.get('const'): return True
        if d.get('i') is None: return False
        if d['v'] in self.memo_static: return self.memo_static[d['v']]
        f = None
        for fk, _, _ in reversed(self.stack):
            if fk in self.F.functions:
                f = self.F.functions[fk]
                break
        wr = False
        if f is not None:
            def target(n): return isinstance(n, dict) and (n.get('k') == 'var' and n.get('v') == d['v'])

            def walk(n):
                nonlocal wr
                if isinstance(n, dict):
                    k = n.get('k')
                    if k == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') and target(n['a'][0]): wr = True
                    if k == 'un' and n['op'] in ('++', '--', '&') and target(n['e']): wr = True
                    if k == 'opcall' and (n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') or n['op'] == '[]' and 'map' in n.get('fn', '')) and n['a'] and target(n['a'][0]): wr = True
                    if k == 'call' and target(n.get('o')) and sh(n.get('fn', '')) in ('insert', 'emplace', 'push_back', 'emplace_back', 'clear', 'erase', 'try_emplace', 'insert_or_assign', 'pop_back', 'resize'): wr = True
                    if k in ('call', 'opcall'):
                        pm = n.get('pm') or []
                        a = n.get('a', [])
                        off = len(a) - len(pm)
                        for i, x in enumerate(a):
                            if target(x) and i - off >= 0 and i - off < len(pm) and pm[i - off] == 'r': wr = True
                    for v in n.values(): walk(v)
                elif isinstance(n, list):
                    for v in n: walk(v)
            walk(f['body'])
        else: wr = True
        self.memo_static[d['v']] = not wr
        return not wr

    def s_if(self, s, st, fr, fl):
        if s.get('init'):
            st = self.exec(s['init'], st, fr, fl)
            if st is None: return None
        if s.get('var'): self.declare(s['var'], st, fr)
        c = self.evalb(s['c'], st, fr)
        if st.pc is FALSE: return None
        a = self.exec(s['then'], st.copy(st.pc & c), fr, fl) if c is not FALSE else None
        b = self.exec(s.get('else'), st.copy(st.pc & ~c), fr, fl) if c is not TRUE else None
        return self.merge(a, b)

    def s_return(self, s, st, fr, fl):
        v = VOID
        if s.get('e') is not None:
            if fr.ret_ref:
                v = self.lval(s['e'], st, fr)
                if v is None: v = self.eval(s['e'], st, fr)
            else:
                v = self.eval(s['e'], st, fr)
        if st.pc is not FALSE: fl.rets.append((st, v))
        return None

    def s_break(self, s, st, fr, fl):
        fl.brks.append(st)
        return None

    def s_continue(self, s, st, fr, fl):
        fl.conts.append(st)
        return None

    def s_try(self, s, st, fr, fl):
        entry = st.copy()
        a = self.exec(s['body'], st, fr, fl)
        out = a
        for i, h in enumerate(s.get('h', [])):
            exc = atom(mk('thrown', s.get('l', 0), i))
            hs = entry.copy(entry.pc & exc)
            body = h.get('body', h)
            if h.get('var') and h['var'].get('v'):
                fr.vars.add(h['var']['v'])
                hs.store[('L', fr.id, h['var']['v'])] = mk('exc')
            out = self.merge(out, self.exec(body, hs, fr, fl))
        return out

    def s_switch(self, s, st, fr, fl):
        if s.get('init'): st = self.exec(s['init'], st, fr, fl)
        v = self.eval(s['c'], st, fr)
        inner = Flow()
        inner.rets, inner.conts = fl.rets, fl.conts
        body = s['body']['s'] if s['body'] and s['body'].get('k') == 'block' else [s['body']]
        flat = []

        def unroll(x):
            if x is None: return
            if x['k'] in ('case', 'default'):
                flat.append(('label', x))
                unroll(x.get('s'))
            else: flat.append(('stmt', x))
        for x in body: unroll(x)
        conds, neg = {}, TRUE
        for i, (k, x) in enumerate(flat):
            if k == 'label' and x['k'] == 'case':
                c = eq(tot(v), tot(self.eval(x['e'], st.copy(), fr)))
                conds[i] = c & neg
                neg = neg & ~c
        cur, base = None, st
        for i, (k, x) in enumerate(flat):
            if k == 'label':
                c = conds.get(i, neg)
                cur = self.merge(cur, base.copy(base.pc & c))
            elif cur is not None: cur = self.exec(x, cur, fr, inner)
        hasdef = any(k == 'label' and x['k'] == 'default' for k, x in flat)
        if not hasdef: cur = self.merge(cur, base.copy(base.pc & neg))
        for b in inner.brks: cur = self.merge(cur, b)
        return cur

    def s_other(self, s, st, fr, fl):
        self.unknown('statement ' + s.get('cls', '?'), s)
        return st

    # ---------------------------------------------------------------- loops
    def s_forr(self, s, st, fr, fl):
        r = s['r']
        l = self.lval(r, st, fr)
        v = self.read(st, l, 'std::vector') if l is not None else self.eval(r, st, fr)

        def body(s2, x, f2):
            d = s['var']
            key = ('L', fr.id, d['v'])
            fr.vars.add(d['v'])
            s2.store[key] = x if not isinstance(x, tuple) else ('&', x)
            for i, b in enumerate(d.get('bind') or []):
                s2.store[('L', fr.id, b)] = tget(tot(x), i)
                fr.vars.add(b)
            return self.exec(s['body'], s2, fr, f2)
        if (s['var'].get('t') or '').replace('const', '').replace('&', '').strip() == 'char':
            TEXTS.add(tot(v))
            return self.iterate_list(mk('list', rng(tot(v))), st, fr, fl, body, s)
        return self.iterate_list(tot(v), st, fr, fl, body, s)

    def iterate_list(self, v, st, fr, fl, body, node):
        """run body(state, element, flow) over the list term v"""
        if st is None: return None
        exits = []
        fl2 = Flow()
        fl2.rets = fl.rets
        cur = self._iter(v, st, fr, fl2, body, node, exits)
        for b in exits: cur = self.merge(cur, b)
        return cur

    def _iter(self, v, st, fr, fl, body, node, exits):
        """exits collects the states that left the whole iteration by break"""
        if st is None or st.pc is FALSE: return None
        if v.op == 'nil' or v is EMPTY: return st
        if v.op == 's' and not v.a[0]: return st
        if v.op == 'cat' and any(p.op in ('item', 'star', 'ite', 'kv') for p in v.a[0]) and not any(p.op == 's' for p in v.a[0]):
            for p in v.a[0]:
                st = self._iter(p, st, fr, fl, body, node, exits)
                if st is None: return None
            return st
        if v.op in ('item', 'kv'):
            f2 = Flow()
            f2.rets = fl.rets
            x = v.a[0] if v.op == 'item' else mk('tup', *v.a)
            r = body(st.copy(), x, f2)
            r = r if isinstance(r, State) or r is None else st
            for c in f2.conts: r = self.merge(r, c)
            exits += f2.brks
            return r
        if v.op == 'ite':
            a = self._iter(v.a[1], st.copy(st.pc & v.a[0]), fr, fl, body, node, exits) if (st.pc & v.a[0]) is not FALSE else None
            b = self._iter(v.a[2], st.copy(st.pc & ~v.a[0]), fr, fl, body, node, exits) if (st.pc & ~v.a[0]) is not FALSE else None
            return self.merge(a, b)
        if v.op == 'star':
            R, d, inner = v.a

            def outer(s2, x, f2):
                ex2 = []
                r = self._iter(inner, s2, fr, f2, body, node, ex2)
                f2.brks += ex2
                return r
            return self.loop(R, d, st, fr, fl, outer, node, exits)
        R = v.a[0] if v.op == 'list' else rng(v)
        return self.loop(R, None, st, fr, fl, body, node, exits)

    def loop(self, R, d, st, fr, fl, body, node, exits, bindidx=None):
        """run body over the elements of the opaque range R"""
        fil = None
        if R.op == 'fil': R, fil = R.a
        if R.op == 'range' and R.a[0] == 'elems' and R.a[1].op == 'setof': R = mk('sorted', rng(R.a[1].a[0]))
        if d is None: d = 1 + sum(1 for r, _ in self.loops if r is R)
        e = elem(R, d)

        def it(s, f2):
            if fil is not None:
                c = self.isa(fil, e)
                skip = s.copy(s.pc & ~c)
                s = s.copy(s.pc & c)
                if s.pc is FALSE:
                    return skip
                r = body(s, e, f2)
                return self.merge(r, skip)
            return body(s, e, f2)
        return self.loop_core(R, d, st, fr, fl, it, node, exits)

    def havoc(self, st, changed, tag):
        for i, k in enumerate(sorted(changed, key=lambda x: str(x))):
            old = changed[k]
            lvt = mk('lv', tag, i)
            self.lvkeys[lvt] = k
            st.store[k] = atom(lvt) if isinstance(old, B) else lvt
        return {k: st.store[k] for k in changed}

    def scan(self, st, fr, run, tag):
        """the locations the iteration changes: key -> value at entry"""
        changed = {}
        rec, self.rec = self.rec, False
        nl = len(self.lams)
        try:
            for _ in range(6):
                s = st.copy()
                self.havoc(s, changed, tag)
                before = dict(s.store)
                f2 = Flow()
                r = run(s, f2)
                new = False
                for o in [r] + f2.conts + f2.brks + [x for x, _ in f2.rets]:
                    if o is None: continue
                    for k, v in o.store.items():
                        if k in changed: continue
                        b = before.get(k)
                        if v is b or v == b and isinstance(v, tuple): continue
                        if b is None:
                            if k[0] == 'L' and (len(k) <= 3 or k[:3] not in before): continue          # declared inside
                            b = self.read(st, (k[:3], tuple(('f', p[1:]) for p in k[3:]))) if k[0] == 'L' else self.dflt(st, k, v)
                            if v is b: continue
                        if isinstance(b, tuple): continue
                        changed[k] = b
                        new = True
                if not new: break
            self.consts = {}
            end = r
            for c in f2.conts: end = self.merge(end, c)
            if end is not None:
                for k in changed:
                    v = end.store.get(k)
                    if v is TRUE or v is FALSE or isinstance(v, T) and v.op in ('s', 'int', 'chr'): self.consts[k] = v
        finally: self.rec = rec
        return changed

    def loop_core(self, R, d, st, fr, fl, run, node, exits):
        tag = (len(self.loops), sum(1 for r, _ in self.loops))
        self.lvn += 1
        tag = self.lvn
        self.loops.append((R, d))
        try:
            changed = self.scan(st, fr, run, tag)
            s = st.copy()
            lvs = self.havoc(s, changed, tag)
            for k, c in self.consts.items(): # what every iteration sets to the same value
                if isinstance(changed[k], (T, B)): s.store[k] = ite(ge0(add(position(R, d), mk('int', 1), -1)), c, changed[k])
            f2 = Flow()
            n_ev = len(self.events)
            end = run(s, f2)
            for c in f2.conts: end = self.merge(end, c)
        finally: self.loops.pop()
        pc0 = st.pc
        rets = [(x, v) for x, v in f2.rets if x.pc is not FALSE]
        brks = [b for b in f2.brks if b.pc is not FALSE]
        rel = lambda pc: constrain(pc, pc0)
        gret = FALSE
        for x, v in rets: gret = gret | x.pc
        gbrk = FALSE
        for b in brks: gbrk = gbrk | b.pc
        endpc = end.pc if end is not None else FALSE
        gdead = pc0 & ~(gret | gbrk | endpc)
        gret, gbrk, gdead = rel(gret), rel(gbrk), rel(gdead)
        lvterms = {}
        for k in changed:
            lv = lvs[k]
            lvterms[atom_term(lv.v) if isinstance(lv, B) else lv] = k
        # ---- values after normal completion
        fin, norm = {}, {}
        counters = {}
        for k in changed:
            v1 = end.store.get(k) if end is not None else None
            if isinstance(v1, tuple): v1 = self.read(end, v1[1])
            if v1 is None: v1 = changed[k]
            norm[k] = v1
        # unconditional counters i' = i + 1: i is the position of the element (offset by the entry value)
        sub = {}
        for k in changed:
            lv, v1 = lvs[k], norm[k]
            if isinstance(lv, T) and isinstance(v1, T) and v1 is add(lv, mk('int', 1)): sub[lv] = add(changed[k], mk('idx', R, d))
        if sub:
            memo = {}
            norm = {k: substitute(v, sub, memo) if lvs[k] not in sub else v for k, v in norm.items()}
            gret, gbrk, gdead = (substitute(g, sub, memo) for g in (gret, gbrk, gdead))
            for e in self.events[n_ev:]: e.pc, e.args = substitute(e.pc, sub, memo), tuple(substitute(x, sub, memo) for x in e.args)
        index = lambda k: isinstance(changed[k], T) and changed[k].op == 'uninit'
        if brks and self.monotone(gbrk, R, d, lvterms):
            # left at the first position beyond a bound, before anything was done there: the elements beyond it are passed over
            bs = self.mergeall(brks)
            keep = [k for k in changed if lvs[k] not in sub and bs.store.get(k) is lvs[k]]
            norm = {k: ite(gbrk, lvs[k], v) if k in keep else v for k, v in norm.items()}
        elif brks and self.sticky(gbrk, R, d, lvterms) and all(self.mergeall(brks).store.get(k) is lvs[k] for k in changed if lvs[k] not in sub and not index(k)):
            # left before anything was done, for a reason that stays: passing over the remaining elements is the same
            keep = [k for k in changed if lvs[k] not in sub and not index(k)]
            norm = {k: ite(gbrk, lvs[k], v) if k in keep else v for k, v in norm.items()}
        elif brks and any(t in lvterms for t in atoms_of(gbrk)) and not any(x in lvterms and x is not t for t in atoms_of(gbrk) for x in subterms(t)):
            # whether it is left depends on earlier iterations: having been left becomes a variable of the loop
            bs, stop = self.mergeall(brks), mk('lv', tag, 'stop')
            left = lambda k: substitute(bs.store[k], sub) if sub and isinstance(bs.store[k], (T, B)) else bs.store[k]
            keep = [k for k in changed if lvs[k] not in sub and not index(k) and isinstance(bs.store.get(k), (T, B))]
            norm = {k: ite(atom(stop), lvs[k], ite(gbrk, left(k), v)) if k in keep else v for k, v in norm.items()}
            lvterms[stop] = stop
            changed, norm = dict(changed), dict(norm)
            changed[stop], norm[stop], lvs = FALSE, atom(stop) | gbrk, dict(lvs)
            lvs[stop] = atom(stop)
        else: keep = []
        self.loopinfo[tag] = (R, d, {lv: (changed[k], norm[k]) for lv, k in lvterms.items()})
        changed = {k: v for k, v in changed.items() if not isinstance(k, T)}
        for k in changed: fin[k] = self.close(R, d, lvs[k], changed[k], norm[k], lvterms)
        exit_all = ex(R, d, gret | gbrk | gdead)
        after = st.copy(pc0 & ~ex(R, d, gret | gdead))
        for k in changed: after.store[k] = fin[k]
        # ---- break: the values assigned by the breaking iteration
        if brks and self.brkinfo is not None and self.brkinfo[0] == len(self.loops): self.brkinfo[1].append((R, d, gbrk, any(x in lvterms for t in atoms_of(gbrk) for x in subterms(t))))
        if brks:
            hit = ex(R, d, gbrk)
            bs = self.mergeall(brks)
            for k in changed:
                bv = bs.store.get(k)
                if bv is None or isinstance(bv, tuple) or k in keep: continue
                if sub: bv = substitute(bv, sub)
                if bv is lvs[k]: val = fin[k] if not isinstance(fin[k], T) or not contains_op(fin[k], ('star',)) else mk('upto', R, d, gbrk, fin[k])
                elif not any(x in lvterms for x in subterms(bv)) and not elem_dep_any(bv, R, d): val = bv
                elif not any(x in lvterms for x in subterms(bv)):
                    val = bv
                    if isinstance(bv, B): val = split_first_b(R, d, gbrk, bv)
                    elif bv is mk('idx', R, d) or contains_term(bv, mk('idx', R, d)) and not contains_term(bv, elem(R, d)): val = substitute(bv, {mk('idx', R, d): first('firstidx', R, d, gbrk)})
                    else: val = first('firstval', R, d, gbrk, tot(bv))
                else:
                    pv = self.prefix_of(bv, lvs[k])
                    val = mk('upto', R, d, gbrk, cat(fin[k], mk('firstval', R, d, gbrk, pv))) if pv is not None and isinstance(fin[k], T) else mk('fold', R, d, tot(bv), tot(changed[k]))
                    if isinstance(changed[k], B): val = tob(val)
                after.store[k] = split_ite(R, d, gbrk, val, fin[k])
        # ---- returns
        for x, v in rets:
            g = rel(x.pc)
            if sub:
                g = substitute(g, sub)
            rs = st.copy(pc0 & ex(R, d, g))
            for k in changed: rs.store[k] = fin[k]
            if isinstance(v, tuple): v = self.read(x, v)
            if sub and isinstance(v, (T, B)): v = substitute(v, sub)
            if isinstance(v, B):
                if v is not TRUE and v is not FALSE and elem_dep_any(v, R, d): v = split_first_b(R, d, g, v)
            elif elem_dep_any(v, R, d) or any(t in lvterms for t in subterms(v)): v = first('firstval', R, d, g, v)
            fl.rets.append((rs, v))
        # variables of the iteration do not survive it
        return after if after.pc is not FALSE else None

    def monotone(self, g, R, d, lvterms):
        """g, once true of a position, is true of all later ones"""
        if not single(g) and not single(~g): return False
        t = atom_term(g.v)
        if t.op != 'ge0': return False
        _, m = lin_of(t.a[0])
        i = mk('idx', R, d)
        if i not in m or (m[i] > 0) != single(g): return False
        return not any(x is not i and (any(y in lvterms for y in subterms(x)) or elem_dep_any(x, R, d)) for x in m)

    def sticky(self, g, R, d, lvterms):
        """g is about the variables of the loop only: it stays true when an iteration changes nothing"""
        return all(any(x in lvterms for x in subterms(t)) and not elem_dep_any(t, R, d) for t in atoms_of(g))

    def prefix_of(self, v, lv):
        if isinstance(v, T) and v.op == 'cat' and v.a[0][0] is lv: return cat(*v.a[0][1:])
        return None

    def close(self, R, d, lv, v0, v1, lvterms):
        """the value after all iterations, given the value lv before one and v1 after it"""
        dep = lambda t: any(x in lvterms for x in subterms(t))
        if isinstance(lv, B):
            v1 = tob(v1)
            v0 = tob(v0)
            if v1 is lv: return v0
            i = lv.v
            h, l = cofactor(v1, i, True), cofactor(v1, i, False)
            if h is TRUE and not dep(l): return v0 | ex(R, d, l)
            if l is FALSE and not dep(h): return v0 & ~ex(R, d, ~h)
            if not dep(v1) and not elem_dep_any(v1, R, d): return bite(ex(R, d, TRUE), v1, v0)
            # h: after a true value; l: after a false value
            return atom(mk('foldb', R, d, v1, v0))
        if isinstance(v1, B): v1 = mk('b', v1)
        if v1 is lv: return v0
        lin = add(v1, lv, -1) if v1.op in ('lin', 'ite') or v1 is lv else None
        if v1.op == 'lin':
            if not dep(lin):
                n = mk('count', R, d, lin) if elem_dep_any(lin, R, d) or True else lin
                if lin is mk('int', 1): return add(v0, size(mk('list', R)) if R.op in ('range', 'fil') and not (R.op == 'range' and R.a[0] == 'elems') else size(R.a[1]) if R.op == 'range' else mk('count', R, d, lin))
                return add(v0, n)
        p = self.prefix_of(v1, lv)
        if p is not None:
            if not contains_term(p, lv): return cat(v0, star(R, d, p))
        if v1.op == 'ite':
            a, b = v1.a[1], v1.a[2]
            # conditional assignment of a loop-invariant value: the last hit wins, which is the value if any hit
            for c, x, y in ((v1.a[0], a, b), (~v1.a[0], b, a)):
                if y is lv and not dep(x) and not elem_dep_any(x, R, d) and not dep(c): return ite(ex(R, d, c), x, v0)
                if y is lv and not dep(x) and not dep(c): return ite(ex(R, d, c), mk('lastval', R, d, c, x), v0)
        if not dep(v1):
            if not elem_dep_any(v1, R, d): return ite(ex(R, d, TRUE), v1, v0)
            return ite(ex(R, d, TRUE), mk('lastval', R, d, TRUE, v1), v0)
        return mk('fold', R, d, v1, tot(v0))

    # generic loops -----------------------------------------------------------------
    def s_for(self, s, st, fr, fl):
        if s.get('init'):
            st = self.exec(s['init'], st, fr, fl)
            if st is None: return None
        return self.genloop(s.get('c'), s.get('inc'), s['body'], st, fr, fl, s)

    def s_while(self, s, st, fr, fl):
        return self.genloop(s.get('c'), None, s['body'], st, fr, fl, s, var=s.get('var'))

    def s_do(self, s, st, fr, fl):
        # a condition that holds on entry makes this a plain while loop
        if s.get('c'):
            rec, self.rec = self.rec, False
            c = self.evalb(s['c'], st.copy(), fr)
            self.rec = rec
            if implies(st.pc, c): return self.genloop(s['c'], None, s['body'], st, fr, fl, s)
        f2 = Flow()
        f2.rets = fl.rets
        r = self.exec(s['body'], st, fr, f2)
        for c in f2.conts: r = self.merge(r, c)
        if r is not None: r = self.genloop(s.get('c'), None, s['body'], r, fr, fl, s)
        for b in f2.brks: r = self.merge(r, b)
        return r

    def genloop(self, cond, inc, body, st, fr, fl, node, var=None):
        self.lvn += 1
        tag = self.lvn

        def run(s, f2, condval=None):
            """one iteration from s: (state after, cond)"""
            if var: self.declare(var, s, fr)
            c = self.evalb(cond, s, fr) if cond else TRUE
            run.c = c
            stop = s.copy(s.pc & ~c)
            s = s.copy(s.pc & c)
            fb = Flow()
            fb.rets = f2.rets
            r = self.exec(body, s, fr, fb) if s.pc is not FALSE else None
            for x in fb.conts: r = self.merge(r, x)
            f2.brks += fb.brks
            if r is not None and inc is not None: self.eval(inc, r, fr)
            run.stop = stop
            return r
        self.loops.append((mk('while', tag), 1))
        changed = self.scan(st, fr, run, tag)
        rec, self.rec = self.rec, False
        s = st.copy()
        lvs = self.havoc(s, changed, tag)
        f2 = Flow()
        r = run(s, f2)
        self.rec = rec
        self.loops.pop()
        c = run.c
        # find the induction variable
        ind = None
        if r is not None:
            for k in changed:
                lv, v1 = lvs[k], r.store.get(k)
                if not isinstance(lv, T) or not isinstance(v1, T): continue
                v0 = changed[k]
                if v1 is mk('next', lv) or v1 is add(lv, mk('int', 1)) and isinstance(v0, T) and v0.op == 'begin':
                    ind = ('it', k, lv, v0)
                    break
                if v1 is add(lv, mk('int', 1)) and ind is None:
                    b = self.bound(c, lv, lvs)
                    if b is not None: ind = ('int', k, lv, v0, b)
        if ind and ind[0] == 'it':
            _, k, lv, v0 = ind
            if isinstance(v0, T) and v0.op == 'begin':
                return self.iter_loop(k, v0.a[0], cond, inc, body, st, fr, fl, node, var)
        if ind and ind[0] == 'int':
            return self.int_loop(ind, cond, inc, body, st, fr, fl, node, var)
        return self.while_loop(run, st, fr, fl, node, changed, tag)

    def bound(self, c, lv, lvs):
        """hi such that c implies lv < hi with hi invariant; (hi, exact?)"""
        lset = {x if isinstance(x, T) else atom_term(x.v) for x in lvs.values()}
        best = None
        for t in atoms_of(c):
            if t.op == 'eq' and lv in t.a and implies(c, ~atom(t)):   # lv != hi
                hi = t.a[1] if t.a[0] is lv else t.a[0]
                if not any(y in lset for y in subterms(hi)) and (best is None or (best.op != 'size' and hi.op == 'size')): best = hi
            if t.op in ('ge0', 'eq0'):
                k0, m = lin_of(t.a[0])
                if lv not in m: continue
                if any(x is not lv and any(y in lset for y in subterms(x)) for x in m): continue
                k = m[lv]
                rest = mklin(k0, {x: y for x, y in m.items() if x is not lv})
                A = atom(t)
                if t.op == 'ge0':
                    if k == 1 and implies(c, ~A):   # lv + rest < 0  -> lv < -rest
                        hi = add(mk('int', 0), rest, -1)
                    elif k == -1 and implies(c, A):  # rest - lv >= 0 -> lv < rest+1
                        hi = add(rest, mk('int', 1))
                    else: continue
                else:
                    if not implies(c, ~A): continue
                    hi = add(mk('int', 0), rest, -1) if k == 1 else rest if k == -1 else None   # lv != hi
                    if hi is None: continue
                if best is None or (best.op != 'size' and hi.op == 'size'): best = hi
        return best

    def iter_loop(self, k, R, cond, inc, body, st, fr, fl, node, var):
        fil = None
        R0 = R
        if R.op == 'fil': R, fil = R.a

        if R.op == 'range' and R.a[0] == 'elems':
            # iterating a known list by iterators: the element itself
            pass
        exits = []

        def bodyf(s2, x, f2):
            s2.store[k] = x
            if var: self.declare(var, s2, fr)
            c = self.evalb(cond, s2, fr) if cond else TRUE
            # element != end is part of the iteration; anything else in the condition ends the loop
            t = substitute(c, {}) if False else c
            end = mk('end', R0)
            c = subst_b(c, lambda a: TRUE_if_end(a, x, end))
            c = simp(c, s2.pc)
            if c is not TRUE:
                b = s2.copy(s2.pc & ~c)
                if b.pc is not FALSE: f2.brks.append(b)
                s2 = s2.copy(s2.pc & c)
                if s2.pc is FALSE: return None
            fb = Flow()
            fb.rets = f2.rets
            r = self.exec(body, s2, fr, fb)
            for y in fb.conts: r = self.merge(r, y)
            f2.brks += fb.brks
            self.others(inc, r, fr, k)
            return r
        fl2 = Flow()
        fl2.rets = fl.rets
        src = mk('list', R0)
        if R.op == 'range' and R.a[0] == 'elems': src = R.a[1]
        save = st.store.get(k)
        st = st.copy()
        outer, self.brkinfo = self.brkinfo, (len(self.loops), [])
        cur = self._iter(src, st, fr, fl2, bodyf, node, exits)
        (_, left), self.brkinfo = self.brkinfo, outer
        if cur is not None:
            # where a loop left by a break leaves its iterator
            over = mk('end', R0)
            for R1, d1, g, dep in left: over = ite(ex(R1, d1, g), mk('mut', 'left', R0) if dep or len(left) > 1 else first('firstval', R1, d1, g, elem(R1, d1)), over)
            cur.store[k] = over
        for b in exits: cur = self.merge(cur, b)
        return cur

    def others(self, inc, st, fr, k):
        """what the increment of a loop does besides advancing its variable k"""
        if st is None or inc is None: return
        v = st.store.get(k)
        self.eval(inc, st, fr)
        if v is None: st.store.pop(k, None)
        else: st.store[k] = v

    def unroll(self, cond, inc, body, st, fr, fl, var):
        """a loop that runs a known number of times"""
        out, cur = None, st
        while cur is not None and cur.pc is not FALSE:
            if var: self.declare(var, cur, fr)
            c = simp(self.evalb(cond, cur, fr), cur.pc) if cond else TRUE
            out = self.merge(out, cur.copy(cur.pc & ~c)) if (cur.pc & ~c) is not FALSE else out
            if (cur.pc & c) is FALSE: break
            fb = Flow()
            fb.rets = fl.rets
            cur = self.exec(body, cur.copy(cur.pc & c), fr, fb)
            for y in fb.conts: cur = self.merge(cur, y)
            for y in fb.brks: out = self.merge(out, y)
            if cur is not None and inc is not None: self.eval(inc, cur, fr)
        return out

    def int_loop(self, ind, cond, inc, body, st, fr, fl, node, var):
        _, k, lv, v0, hi = ind
        if isinstance(v0, T) and v0.op == 'int' and hi.op == 'int' and hi.a[0] - v0.a[0] <= 100: return self.unroll(cond, inc, body, st, fr, fl, var)
        # which range do the indices address?
        R = None
        if hi.op == 'size':
            x = hi.a[0]
            R = x.a[0] if x.op == 'list' else rng(x)
        short = None   # all but the last element of a sequence
        if R is None and hi.op == 'lin' and v0 is mk('int', 0):
            c0, m0 = lin_of(hi)
            if c0 == -1 and len(m0) == 1 and list(m0)[0].op == 'size' and m0[list(m0)[0]] == 1 and list(m0)[0].a[0].op not in ('cat', 'ite', 'star', 's'):
                short = list(m0)[0].a[0]
                R = rng(mk('call', 'pop_back', (short,)))
        useR = R is not None
        if not useR: R = mk('irange', tot(v0), hi)
        d = 1 + sum(1 for r, _ in self.loops if r is R)
        i = mk('idx', R, d) if useR else elem(R, d)

        def bodyf(s2, x, f2):
            s2.store[k] = i
            c = self.evalb(cond, s2, fr) if cond else TRUE
            if not useR or short is not None:
                # lo <= i < hi holds inside
                facts = ge0(add(i, tot(v0), -1)) & ge0(add(add(hi, i, -1), mk('int', 1), -1)) & ~eq(i, hi)
                c = TRUE if implies(facts, c) else constrain(c, facts)
            if useR and v0 is not mk('int', 0):
                lo = ge0(add(i, tot(v0), -1))
                if lo is not TRUE:
                    skip = s2.copy(s2.pc & ~lo)
                    s2 = s2.copy(s2.pc & lo)
                    if s2.pc is FALSE: return skip
                else: skip = None
            else: skip = None
            # remaining conjuncts: i < n is monotone, so it filters; anything else ends the loop
            if c is not TRUE and c is not FALSE:
                mono = TRUE
                for t in atoms_of(c):
                    if t.op == 'ge0':
                        _, m = lin_of(t.a[0])
                        if i in m and not any(y is not i and contains_term(y, i) for y in m):
                            A = atom(t)
                            lit = A if implies(c, A) and m[i] < 0 else ~A if implies(c, ~A) and m[i] > 0 else None
                            if lit is not None: mono = mono & lit
                rest = constrain(c, mono)
                if mono is not TRUE:
                    sk = s2.copy(s2.pc & ~mono)
                    skip = sk if skip is None else self.merge(skip, sk)
                    s2 = s2.copy(s2.pc & mono)
                if rest is not TRUE:
                    b = s2.copy(s2.pc & ~rest)
                    if b.pc is not FALSE: f2.brks.append(b)
                    s2 = s2.copy(s2.pc & rest)
            elif c is FALSE: return skip
            fb = Flow()
            fb.rets = f2.rets
            r = self.exec(body, s2, fr, fb) if s2.pc is not FALSE else None
            for y in fb.conts: r = self.merge(r, y)
            f2.brks += fb.brks
            self.others(inc, r, fr, k)
            return self.merge(r, skip)
        exits = []
        st = st.copy()
        save = st.store.pop(k, None)
        st.store[k] = mk('uninit', 'i')
        fl2 = Flow()
        fl2.rets = fl.rets

        def it(s2, f2):
            return bodyf(s2, None, f2)
        r = self.loop_core(R, d, st, fr, fl2, it, node, exits)
        if r is not None:
            v = r.store.get(k)
            last = hi if useR or True else hi
            if not useR and not (isinstance(v0, T) and implies(TRUE, ge0(add(hi, tot(v0), -1)))):
                last = ite(ge0(add(hi, tot(v0), -1)), hi, tot(v0))
            if useR and v0 is not mk('int', 0): last = ite(ge0(add(hi, tot(v0), -1)), hi, tot(v0)) if not (isinstance(v0, T) and v0.op in ('ite',)) else hi
            r.store[k] = self.after_index(v, R, d, i, last)
        return r

    def after_index(self, v, R, d, i, last):
        """the index variable after the loop: the breaking index, or the bound"""
        if isinstance(v, T):
            if v.op == 'ite':
                return ite(v.a[0], self.after_index(v.a[1], R, d, i, last), self.after_index(v.a[2], R, d, i, last))
            if v.op in ('firstidx',) or v.op == 'firstval': 
                return mk('firstidx', *v.a[:3])
        return last

    def while_loop(self, run, st, fr, fl, node, changed, tag):
        # structural name of the loop, independent of where it stands
        s = st.copy()
        lvs = self.havoc(s, changed, tag)
        R = mk('while', tag)
        self.loops.append((R, 1))
        f2 = Flow()
        r = run(s, f2)
        self.loops.pop()
        c = run.c
        lvterms = {(atom_term(x.v) if isinstance(x, B) else x): k for k, x in lvs.items()}
        # a chain: x = start; while( more(x) ) { ...; x = step(x) }
        drive = None
        if r is not None and not f2.brks and not f2.rets and c is not TRUE:
            deps = {t for t in subterms(c) if t in lvterms}
            if len(deps) == 1:
                x, = deps
                v1 = r.store.get(lvterms[x])
                if isinstance(v1, T) and lvs[lvterms[x]] is x and not any(t in lvterms and t is not x for t in subterms(v1)) and self.prefix_of(v1, x) is None and v1.op not in ('lin', 'int') and v1 is not x and not (isinstance(changed[lvterms[x]], T) and changed[lvterms[x]].op == 'int'): drive = x
        if drive is not None:
            h = mk('hole')
            k = lvterms[drive]
            C = mk('iter', tot(changed[k]), substitute(r.store[k], {drive: h}), mk('b', substitute(c, {drive: h})))
            m = {drive: elem(C, 1)}
            memo = {}
            for e in self.events:
                if (R, 1) in e.loops:
                    e.loops = tuple((C, 1) if l == (R, 1) else l for l in e.loops)
                    e.args = tuple(substitute(x, m, memo) if isinstance(x, (T, B)) else x for x in e.args)
                    e.pc = substitute(constrain(e.pc, c), m, memo)
        walk = self.text_walk(r, f2, c, lvs, lvterms, changed)
        after = st.copy()
        for k in changed:
            v1 = r.store.get(k) if r is not None else None
            if isinstance(v1, tuple) or v1 is None: v1 = lvs[k]
            lv, v0 = lvs[k], changed[k]
            if walk is not None and k in walk:
                after.store[k] = walk[k]
                continue
            if isinstance(lv, B):
                after.store[k] = atom(mk('wval', tag, tot(v1), tot(v0)))
                continue
            if isinstance(v1, B): v1 = mk('b', v1)
            p = self.prefix_of(v1, lv)
            if v1 is lv: after.store[k] = v0
            elif p is not None and drive is not None and not any(t in lvterms and t is not drive for t in subterms(p)): after.store[k] = cat(v0, star(C, 1, substitute(p, m)))
            elif p is not None: after.store[k] = cat(v0, mk('star', R, 1, p))
            else: after.store[k] = mk('wval', tag, v1, tot(v0))
        # the condition is false afterwards for the final values
        out = after if f2.brks or c is not TRUE else None
        if self.rec:
            iv = {}
            for k in changed:
                v1 = r.store.get(k) if r is not None else None
                if isinstance(v1, tuple) or v1 is None: v1 = lvs[k]
                iv[atom_term(lvs[k].v) if isinstance(lvs[k], B) else lvs[k]] = (k, changed[k], v1)
            self.whiles[R] = (c, iv, bool(f2.brks or f2.rets))
        for x, v in f2.rets:
            rs = st.copy(st.pc & atom(mk('wret', tag, len(fl.rets))))
            for k in changed: rs.store[k] = after.store[k]
            if isinstance(v, tuple): v = self.read(x, v)
            fl.rets.append((rs, v if isinstance(v, B) and not any(t in lvterms for t in subterms(v)) else mk('wretval', tag, tot(v)) if v is not VOID else v))
        if out is not None:
            # the exit condition, over the final values of the variables it tests
            m = {}
            for k in changed:
                lv = lvs[k]
                f = after.store[k]
                m[atom_term(lv.v) if isinstance(lv, B) else lv] = f if isinstance(lv, T) else mk('b', f)
            if not f2.brks:
                nc = substitute(~c, {x: y for x, y in m.items()})
                if (out.pc & nc) is not FALSE: out.pc = out.pc & nc
        return out

    def text_walk(self, r, f2, c, lvs, lvterms, changed):
        """while( accept(t[i]) ) { s += t[i]; ++i; }: the values afterwards, over the number of characters accepted"""
        if r is None or f2.brks or f2.rets or c is TRUE: return None
        deps = {t for t in subterms(c) if t in lvterms}
        if len(deps) != 1: return None
        x, = deps
        kx = lvterms[x]
        if lvs[kx] is not x or r.store.get(kx) is not add(x, mk('int', 1)): return None
        chars = {t for t in subterms(c) if t.op == 'at' and any(y is x for y in subterms(t))}
        if len(chars) != 1: return None
        ch, = chars
        v0 = tot(changed[kx])
        if ch.a[0] is x and ch.a[1] is mk('int', 0):
            if v0.op == 'ite': return None
            text, start = text_ptr(v0)
        elif ch.a[1] is x and not any(y in lvterms for y in subterms(ch.a[0])): text, start = ch.a[0], v0
        else: return None
        G = substitute(c, {ch: mk('hole')})
        for t in atoms_of(G):
            if t is atom_term(ge0(add(add(size(text), x, -1), mk('int', -1))).v): G = constrain(G, atom(t))
        if any(y in lvterms for y in subterms(G)): return None
        n = mk('scanlen', text, start, mk('b', G))
        out = {kx: add(v0, n)}
        for k in changed:
            if k is kx or isinstance(lvs[k], B): continue
            v1 = r.store.get(k)
            if isinstance(v1, T) and self.prefix_of(v1, lvs[k]) is ch: out[k] = cat(changed[k], mk('call', 'substr', (text, start, n)))
        return out

    # ---------------------------------------------------------------- entry points
    def param_term(self, p, counts):
        t = p['t'].replace('const ', '').replace('clang::', '').replace('binder::', '').rstrip(' *&')
        if t.endswith('Config'): return CFG
        t = {'std::basic_string<char>': 'string', 'std::string': 'string'}.get(t, t)
        t = t.split('<')[0].split('::')[-1]
        counts[t] = counts.get(t, 0) + 1
        return mk('p', t if counts[t] == 1 else t + str(counts[t]))

    def root(self, f, args=None, this=None, pre=None, pc=TRUE):
        """summarise function f: (value, final state)"""
        self.events, self.stack, self.loops, self.brkinfo = [], [], [], None
        st = State(pc, {})
        counts, vals = {}, []
        for i, p in enumerate(f['params']):
            if args and i < len(args) and args[i] is not None: t = args[i]
            else: t = self.param_term(p, counts)
            if is_bool(p.get('t')) and isinstance(t, T): t = atom(t)
            if p.get('ref') and isinstance(t, T): vals.append((('O', t), ()))
            else: vals.append(t)
        if this is None and f.get('cls') and not f.get('st'):
            this = mk('this', f['cls'].split('::')[-1])
        self.entry_store = dict(st.store)
        if pre: pre(self, st)
        v = self.invoke(f, {'k': 'call', 'l': f['l']}, [], st, Frame('root'), this=(('O', this), ()) if this is not None else None, values=vals)
        return v, st

    def field(self, st, this, name):
        return self.read(st, (('O', this), (('f', name),)), 'std::string')


def TRUE_if_end(a, x, end):
    if a.op == 'eq' and (end in a.a or x in a.a and any(isinstance(y, T) and y.op == 'end' for y in a.a)): return FALSE
    return None


def elem_dep_any(t, R, d):
    f = elem_dep(R, d)
    return f(t)


def split_ite(R, d, g, val, other):
    return ite(ex(R, d, g), val, other)


def split_first_b(R, d, g, b): return atom(mk('firstb', R, d, g, b))


def static_class(x):
    """what the enumeration alone says about the class of x"""
    if x.op == 'el': x = elem(x.a[0], 1)
    if x.op == 'p':
        n = x.a[0]
        return n if n in PARENT else None
    if x.op == 'elem' and x.a[0].op == 'range':
        n = {'shadow': 'UsingShadowDecl', 'enumerator': 'EnumConstantDecl', 'cspec': 'ClassTemplateSpecializationDecl'}.get(x.a[0].a[0])
        return n if n in PARENT else None
    if x.op == 'call' and len(x.a[1]) >= 1 and x.a[0] == 'getParent': return None
    return None


# ------------------------------------------------------------------------------------------------ reading summaries
class Leaf:
    __slots__ = ('t', 'g', 'ranges')

    def __init__(self, t, g, r): self.t, self.g, self.ranges = t, g, r


def leaves(t, g=TRUE, ranges=()):
    """the pieces a text / list term is made of, with the condition and the enumerations under which each appears"""
    if isinstance(t, B):
        yield Leaf(mk('b', t), g, ranges)
        return
    if t.op == 'cat':
        for p in t.a[0]: yield from leaves(p, g, ranges)
    elif t.op == 'ite':
        if (g & t.a[0]) is not FALSE: yield from leaves(t.a[1], g & t.a[0], ranges)
        if (g & ~t.a[0]) is not FALSE: yield from leaves(t.a[2], g & ~t.a[0], ranges)
    elif t.op == 'star': yield from leaves(t.a[2], g, ranges + ((t.a[0], t.a[1]),))
    elif t.op == 'upto': yield from leaves(t.a[3], g, ranges)
    elif t.op == 'firstval': yield from leaves(t.a[4], g & t.a[3], ranges + ((t.a[0], t.a[1]),))
    elif t.op == 'call' and t.a[0] in ('indent',): yield from leaves(t.a[1][0], g, ranges)
    elif t is EMPTY or t.op in ('nil',): return
    else: yield Leaf(t, g, ranges)
