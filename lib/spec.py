"""A small language in which the specifications are written.

A specification says what a function of the program yields: a text (with alternatives and enumerations), a truth value,
or a set of effects.  Pieces carry the names of the properties they belong to."""
from judge import *
import engine


class V:
    """a value in a specification"""
    __slots__ = ('t',)

    def __init__(self, t): self.t = t

    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return lambda *a: call(n, self, *a)

    def f(self, n): return V(fld(u(self), n))

    def __add__(s, o): return V(cat(u(s), u(o)))

    def __radd__(s, o): return V(cat(u(o), u(s)))

    def __and__(s, o): return V(cond(s) & cond(o))

    def __rand__(s, o): return V(cond(o) & cond(s))

    def __or__(s, o): return V(cond(s) | cond(o))

    def __invert__(s): return V(~cond(s))

    def __eq__(s, o): return V(eq(u(s), u(o)))

    def __ne__(s, o): return V(~eq(u(s), u(o)))

    def __bool__(s): raise TypeError('a specification value has no truth value')

    __hash__ = None

    def __repr__(s): return show(s.t, 12)


def u(x):
    """the term of x"""
    if isinstance(x, V): return x.t
    if isinstance(x, (T, B)): return x
    if isinstance(x, bool): return TRUE if x else FALSE
    if isinstance(x, str): return mk('s', x)
    if isinstance(x, int): return mk('int', x)
    if x is None: return NULL
    raise TypeError(x)


def cond(x): return asb(u(x))


def spread(name, ins):
    n = sum(1 for x in ins if x.op == 'ite')
    if 0 < n <= 3:
        for i, x in enumerate(ins):
            if x.op == 'ite':
                c, a, b = x.a
                return ite(c, spread(name, ins[:i] + (a,) + ins[i + 1:]), spread(name, ins[:i] + (b,) + ins[i + 1:]))
    return engine.clang_call(name, ins)


def call(n, *a): return V(spread(n, tuple(tot(u(x)) for x in a)))


def P(n): return V(atom(mk('p', n)) if n.startswith('bool') else mk('p', n))


def THIS(cls): return V(mk('this', cls))


CONFIG = V(CFG)


def G(n): return V(mk('g', n))


def enum(n, v): return V(mk('enum', n, v))


def S(*a):
    r = EMPTY
    for x in a: r = cat(r, u(x))
    return V(r)


def IF(c, a, b=''): return V(ite(cond(c), u(a), u(b)))


def CASES(*cs):
    """(condition, value), ..., default: the first that applies"""
    *cs, r = cs
    for c, v in reversed(cs): r = IF(c, v, r)
    return r if isinstance(r, V) else V(u(r))


def nn(x): return V(tob(u(x)))


def ne(x): return V(nonempty(u(x)))


def isa(ty, x):
    x = u(x)
    if x.op == 'ite': return V(bite(x.a[0], isa(ty, x.a[1]).t, isa(ty, x.a[2]).t))
    st = engine.static_class(x)
    if st and ty in supers(st): return V(TRUE)
    if ty in engine.CANON_TYPES and x.op == 'call' and x.a[0] == 'getCanonicalType' and len(x.a[1]) == 1: return V(engine.canon_isa(ty, x.a[1][0]))
    return V(atom(mk('isa', ty, x)))


def begins(x, p): return V(prefix(u(x), u(p)))


def ends(x, p): return V(suffix(u(x), u(p)))


def contains(x, p): return V(atom(mk('substr?', u(x), u(p))))


def allof(*cs):
    r = TRUE
    for c in cs: r = r & cond(c)
    return V(r)


def anyof(*cs):
    r = FALSE
    for c in cs: r = r | cond(c)
    return V(r)


def oneof(x, vals): return anyof(*[V(eq(u(x), u(v))) for v in vals])


# ranges
def R(kind, x): return mk('range', kind, u(x))


def params(x): return R('param', x)


def decls(x): return R('decl', x)


def bases(x): return R('base', x)


def elems(x): return rng(u(x))


def each(r, d=1): return V(elem(r, d))


def idx(r, d=1): return V(mk('idx', r, d))


def num(x): return V(size(u(x)))


def count(r): return V(size(rng_list(r)))


def plus(a, k): return V(add(u(a), u(k)))


def minus(a, k): return V(add(u(a), u(k), -1))


def less(a, b): return V(lt(u(a), u(b)))


def tostr(x): return V(mk('tostr', u(x)))


def FOR(r, body, d=1, only=None):
    e = each(r, d)
    b = body(e) if callable(body) else body
    if only: b = IF(isa(only, e), b)
    return V(star(r, d, u(b)))


def SOME(r, c, d=1, only=None):
    e = each(r, d)
    c = cond(c(e) if callable(c) else c)
    if only: c = cond(isa(only, e)) & c
    return V(ex(r, d, c))


def ALL(r, c, d=1, only=None):
    e = each(r, d)
    c = cond(c(e) if callable(c) else c)
    if only: c = ~cond(isa(only, e)) | c
    return V(~ex(r, d, ~c))


def ITEM(x): return V(mk('item', tot(u(x))))


def TUP(*a): return V(mk('tup', *[u(x) for x in a]))


def has_(c, k): return V(has(u(c), u(k)))


def at_(c, k): return V(at(u(c), u(k)))


def get(x, i): return V(tget(u(x), i))


def out(fn, i, *a): return V(mk('out', fn, i, tuple(tot(u(x)) for x in a)))


def npos(): return V(mk('npos'))


def substr(s, a, b=None): return V(engine.subtext(u(s), tot(u(a)), u(npos() if b is None else b)))


def SEP(r, s=', ', d=1):
    """s between the elements of r"""
    return IF(V(ge0(mklin(-2, {size(rng_list(r)): 1, mk('idx', r, d): -1}))), s)


# properties
def TAG(p, *ts): return V(mk('tag', p, cat(*[u(t) for t in ts])))


def EMIT(text, complete, *guards):
    """text appears exactly when all guards hold.  guards: (property, condition); a violated guard is that property's
    matter, a text missing although all guards hold is the matter of the property `complete`."""
    g = TRUE
    marks = []
    for p, c in guards:
        c = cond(c)
        g = g & c
        if p: marks.append(V(ite(c, EMPTY, mk('tag', p, EMPTY))))
    # the markers sit where the text would be: they attribute a text that should not be there
    m = EMPTY
    for x in reversed(marks): m = cat(u(x), m)
    return V(ite(g, mk('tag', complete, u(S(text))), m))
