"""Unrolling: an enumeration replaced by a given number of distinct elements.

What a loop computes in a way that has no closed form (values carried from one iteration to the next, early exits) becomes
an ordinary term once the number of elements is fixed; a disagreement that appears then is a disagreement on inputs of that size."""
from engine import *

LOOPY = ('fold', 'foldb', 'firstb', 'upto', 'lastval', 'firstval', 'firstidx', 'lv', 'count')


def asb_(x): return x if isinstance(x, B) else tob_atom(x)


def el(R, i): return mk('el', R, i)


class Inst:
    def __init__(self, info, R, n):
        self.info, self.R, self.n, self.memo = info, R, n, {}
        self.coll = rng_list(R)
        self.tags = {lv: t for t, (r, d, m) in info.items() if r is R for lv in m}
        self.envs = {}

    def at(self, d, i, *ts):
        if self.R.op == 'while': return {x: mk('sym', x.a[0], i) for t in ts for x in subterms(t) if x.op == 'sym' and len(x.a) == 1}
        return {elem(self.R, d): el(self.R, i), mk('idx', self.R, d): mk('int', i)}

    def env(self, tag, i):
        """the variables of the loop before iteration i"""
        k = (tag, i)
        if k in self.envs: return self.envs[k]
        r, d, m = self.info[tag]
        if i == 0: e = {lv: self.go(b) for lv, (b, a) in m.items()}
        else:
            p = dict(self.env(tag, i - 1))
            p.update(self.at(d, i - 1, *[a for b, a in m.values() if isinstance(a, (T, B))]))
            memo = {}
            e = {lv: self.go(substitute(a, p, memo)) if isinstance(a, (T, B)) else a for lv, (b, a) in m.items()}
        self.envs[k] = e
        return e

    def body(self, t, d, i):
        m = self.at(d, i, t)
        for tag in {self.tags[x] for x in subterms(t) if x in self.tags}:
            if self.info[tag][1] == d: m.update(self.env(tag, i))
        return self.go(substitute(t, m))

    def go(self, t):
        if isinstance(t, tuple): return tuple(self.go(x) for x in t)
        if not isinstance(t, (T, B)) or t is TRUE or t is FALSE: return t
        r = self.memo.get(t)
        if r is not None: return r
        if isinstance(t, B): r = subst_b(t, lambda a: self.atomb(a))
        else: r = self.term(t)
        self.memo[t] = r
        return r

    def atomb(self, a):
        r = self.term(a)
        return r if isinstance(r, B) else tob_atom(r)

    def term(self, t):
        o, a, R, n = t.op, t.a, self.R, self.n
        if a and a[0] is R:
            if o == 'star': return cat(*[self.body(a[2], a[1], i) for i in range(n)])
            if o == 'ex':
                r = FALSE
                for i in range(n): r = r | self.body(a[2], a[1], i)
                return r
            if o in ('fold', 'foldb'):
                for tag, (r, d, m) in self.info.items():
                    if r is not R or d != a[1]: continue
                    for lv, (b, z) in m.items():
                        if (z is a[2] or tot(z) is a[2]) and (b is a[3] or tot(b) is a[3]): return self.env(tag, n)[lv]
                return t
            if o in ('firstval', 'firstb', 'firstidx'):
                r = mk('unk', 'no such element') if o != 'firstb' else FALSE
                for i in reversed(range(n)):
                    g = self.body(a[2], a[1], i)
                    v = mk('int', i) if o == 'firstidx' else self.body(a[3], a[1], i)
                    if o == 'firstb':
                        r = bite(g, tob(v), r)
                    else: r = ite(g, v, r) if i < n - 1 else v
                return r
            if o == 'lastval':
                r = None
                for i in range(n):
                    v = self.body(a[3], a[1], i)
                    r = v if r is None else ite(self.body(a[2], a[1], i), v, r)
                return r if r is not None else mk('unk', 'no such element')
            if o == 'count':
                r = mk('int', 0)
                for i in range(n): r = add(r, self.body(a[2], a[1], i))
                return r
            if o == 'upto': return self.upto(t)
            if o == 'ne': return TRUE if n else FALSE
            if o == 'at' and isinstance(a[1], T):
                k = self.go(a[1])
                if isinstance(k, T) and k.op == 'int' and 0 <= k.a[0] < n: return el(R, k.a[0])
        if o == 'size' and (a[0] is self.coll or a[0] is R or a[0].op == 'list' and a[0].a[0] is R): return mk('int', n)
        if o == 'ne' and (a[0] is self.coll or a[0].op == 'list' and a[0].a[0] is R): return TRUE if n else FALSE
        if o == 'has' and a[0] is self.coll:
            k = self.go(a[1])
            r = FALSE
            for i in range(n): r = r | asb_(eq(el(R, i), k))
            return r
        if o in ('at',) and a[0] is self.coll:
            k = self.go(a[1])
            if isinstance(k, T) and k.op == 'int' and 0 <= k.a[0] < n: return el(R, k.a[0])
        b = tuple(self.go(x) for x in a)
        return t if b == a else rebuild(o, b)

    def upto(self, t):
        R, d, g, x = t.a
        n = self.n

        def part(p):
            if p.op == 'cat': return cat(*[part(y) for y in p.a[0]])
            if p.op == 'ite': return ite(self.go(p.a[0]), part(p.a[1]), part(p.a[2]))
            if p.op == 'star' and p.a[0] is R and p.a[1] == d:
                out, alive = [], TRUE
                for i in range(n):
                    alive = alive & ~self.body(g, d, i)
                    out.append(ite(alive, self.body(p.a[2], d, i), EMPTY))
                return cat(*out)
            return self.go(p)
        return part(x)


def ranges_to_unroll(*ts):
    out = []
    for t in ts:
        for x in subterms(t):
            if x.op in LOOPY and x.op != 'lv' and isinstance(x.a[0], T) and x.a[0].op in ('range', 'while') and x.a[0] not in out: out.append(x.a[0])
            if x.op == 'star' and x.a[0].op in ('range', 'while') and x.a[0] not in out and any(y.op == 'lv' for y in subterms(x.a[2])): out.append(x.a[0])
    return out
