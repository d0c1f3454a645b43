"""Deciding whether two summaries agree: background facts about atoms, condition and text comparison, verdicts.

A verdict is definite only when it does not depend on anything the interpreter could not follow."""
from engine import *
from engine import TEXTS as engine_TEXTS, STD_NAMES

OPAQUE = {'foldb', 'fold', 'wval', 'wret', 'wretval', 'unk', 'firstb', 'thrown', 'mut', 'uninit', 'upto', 'lastval', 'badfmt', 'exc', 'lv',
          'callvalue', 'removed', 'static', 'bin', 'un', 'advance', 'next', 'countif', 'count', 'lam', 'ctor0', 'setat', 'from', 'read', 'last', 'unkref'}
STRINGOPS = {'substr', 'erase', 'string::replace', 'string::insert', 'pop_back', 'resize', 'remove_all', 'string', 'find', 'find_first_of', 'find_last_of',
             'find_first_not_of', 'find_last_not_of', 'format', 'next', 'prev', 'vector', 'compare', 'sort', 'transform', '()', 'reverse', 'unique', 'advance', 'distance'}

_opq = {}


def is_text(x): return x in engine_TEXTS or x.op == 's' and x.a[0] != '' or x.op == 'cat' and any(y.op == 's' for y in x.a[0]) or x.op == 'p' and x.a[0].startswith('string')


def opaque(t, allowed=frozenset()):
    """t depends on something that was not followed"""
    k = (t, allowed)
    r = _opq.get(k)
    if r is None:
        r = False
        for x in subterms(t):
            if x in allowed or x.op in allowed: continue
            if x.op in ('elem', 'idx') and x.a[0].op == 'range' and x.a[0].a[0] == 'elems' and is_text(x.a[0].a[1]): r = True; break
            if x.op in OPAQUE or x.op in ('call', 'out') and (x.a[0] in STRINGOPS or x.a[0] in STD_NAMES) or x.op == 'enumval':
                r = True
                break
        _opq[k] = r
    return r


# ------------------------------------------------------------------------------------------------ background facts
TYPE_FACTS = [(('isLValueReferenceType',), 'isReferenceType'), (('isRValueReferenceType',), 'isReferenceType'), (('isPointerType',), 'isAnyPointerType'),
              (('isFunctionPointerType',), 'isPointerType'), (('isConstantArrayType',), 'isArrayType'), (('isCopyAssignmentOperator',), 'isOverloadedOperator')]
EXCLUSIVE = [('isReferenceType', 'isPointerType'), ('isLValueReferenceType', 'isRValueReferenceType'), ('isReferenceType', 'isArrayType'), ('isPointerType', 'isArrayType'),
             ('isCopyConstructor', 'isMoveConstructor'), ('isCopyConstructor', 'isDefaultConstructor'), ('isMoveConstructor', 'isDefaultConstructor')]

# the kinds of (canonical) type each question about a type can be true of
KINDS = {k: frozenset(v.split()) for k, v in {
    'isPointerType': 'fptr optr', 'isFunctionPointerType': 'fptr', 'isAnyPointerType': 'fptr optr objc', 'isLValueReferenceType': 'lref', 'isRValueReferenceType': 'rref', 'isReferenceType': 'lref rref',
    'isArrayType': 'carr iarr darr', 'isConstantArrayType': 'carr', 'isIncompleteArrayType': 'iarr', 'isMemberPointerType': 'mptr', 'isFunctionType': 'fun', 'isFunctionProtoType': 'fun',
    'isRecordType': 'class struct union', 'isClassType': 'class', 'isStructureType': 'struct', 'isUnionType': 'union', 'isStructureOrClassType': 'class struct', 'isEnumeralType': 'enum',
    'isBuiltinType': 'void bool nullptr num other', 'isVoidType': 'void', 'isBooleanType': 'bool', 'isNullPtrType': 'nullptr'}.items()}

TAGS = frozenset('class struct union enum'.split())
_thmemo = {}


def infeasible(cs):
    """no integers satisfy the constraints (c, {term: k}), each c + sum k*term >= 0 (Fourier-Motzkin, with rounding)"""
    cs = [(c, dict(m)) for c, m in cs]
    for _ in range(8):
        vs = {}
        for c, m in cs:
            if not m and c < 0: return True
            for x in m: vs[x] = vs.get(x, 0) + 1
        if not vs or len(cs) > 40: return False
        x = min(vs, key=lambda x: (vs[x], x.id))
        lo, hi, rest = [], [], []
        for c, m in cs: (lo if m.get(x, 0) > 0 else hi if m.get(x, 0) < 0 else rest).append((c, m))
        for c1, m1 in lo:
            for c2, m2 in hi:
                k1, k2 = -m2[x], m1[x]
                m = {}
                for y, k in m1.items(): m[y] = m.get(y, 0) + k * k1
                for y, k in m2.items(): m[y] = m.get(y, 0) + k * k2
                rest.append((c1 * k1 + c2 * k2, {y: k for y, k in m.items() if k}))
        cs = rest
    return False


def linear(lits, nes):
    """facts among linear conditions: at most three of them contradicting each other, given 0 <= position < size"""
    from itertools import combinations
    th = TRUE
    forms = []
    for t in lits:
        if t.op == 'ge0':
            c, m = lin_of(t.a[0])
            forms.append((t, [(c, m)], [(-c - 1, {x: -k for x, k in m.items()})]))
        else:
            d = t.a[0] if t.op == 'eq0' else add(t.a[0], t.a[1], -1)
            c, m = lin_of(d)
            forms.append((t, [(c, m), (-c, {x: -k for x, k in m.items()})], None))
    if not 1 <= len(forms) <= 9: return th
    xs = {x for _, p, _ in forms for _, m in p for x in m}
    base = []
    for x in sorted(xs, key=lambda x: x.id):
        if x.op in ('idx', 'size', 'firstidx'): base.append((0, {x: 1}))
        if x.op in ('idx', 'firstidx') and isinstance(x.a[0], T) and x.a[0].op != 'irange':
            n = size(rng_list(x.a[0]))
            c, m = lin_of(n)
            b = {y: k for y, k in m.items()}
            b[x] = b.get(x, 0) - 1
            base.append((c - 1, b))
        if x.op == 'elem' and x.a[0].op == 'irange':
            lo, hi = x.a[0].a
            base.append(lincon(add(x, lo, -1)))
            base.append(lincon(add(add(hi, x, -1), mk('int', 1), -1)))
    seen = set()
    for n in (1, 2, 3):
        for fs in combinations(forms, n):
            for bits in range(1 << n):
                ls = [(f, not bits >> i & 1) for i, f in enumerate(fs)]
                if any(not pos and f[2] is None for f, pos in ls): continue
                key = frozenset((f[0], pos) for f, pos in ls)
                if any(k <= key for k in seen): continue
                if infeasible([c for f, pos in ls for c in (f[1] if pos else f[2])] + base):
                    seen.add(key)
                    r = TRUE
                    for f, pos in ls: r = r & (atom(f[0]) if pos else ~atom(f[0]))
                    th = th & ~r
    return th


def lincon(t):
    c, m = lin_of(t)
    return c, dict(m)


def numlike(t): return t.op in ('size', 'idx', 'lin', 'int', 'firstidx') or t.op == 'p' and t.a[0] in ('unsigned int', 'int', 'size_t', 'unsigned long')


def theory(ats):
    """What is known to hold among these atom terms, as a condition."""
    ats = tuple(sorted(set(ats), key=lambda t: t.id))
    r = _thmemo.get(ats)
    if r is not None: return r
    th = TRUE
    byeq, byisa, byex, bylin, byfix, bycall, nes, nns = {}, {}, {}, {}, {}, {}, {}, {}
    for t in ats:
        if t.op == 'eq':
            a, b = t.a
            if b.op in CONSTOPS: byeq.setdefault(a, []).append((b, t))
            elif a.op in CONSTOPS: byeq.setdefault(b, []).append((a, t))
        elif t.op == 'isa': byisa.setdefault(t.a[1], []).append(t)
        elif t.op == 'ex': byex.setdefault((t.a[0], t.a[1]), []).append(t)
        elif t.op == 'ge0':
            c, m = lin_of(t.a[0])
            bylin.setdefault(tuple(sorted(m.items(), key=lambda x: x[0].id)), []).append((c, t))
        elif t.op in ('prefix', 'suffix', 'substr?'): byfix.setdefault(t.a[0], []).append(t)
        elif t.op == 'ne': nes[t.a[0]] = t
        elif t.op == 'nn': nns[t.a[0]] = t
        elif t.op == 'call' and len(t.a[1]) >= 1: bycall.setdefault(t.a[1], {})[t.a[0]] = t
    imp = lambda a, b: bite(a, b, TRUE)
    apart = set()
    for x, l in byfix.items():
        for op, starts in (('prefix', str.startswith), ('suffix', str.endswith)):
            clique = []
            for t in l:
                if t.op == op and t.a[1].op == 's' and not any(starts(t.a[1].a[0], u.a[1].a[0]) or starts(u.a[1].a[0], t.a[1].a[0]) for u in clique): clique.append(t)
            if len(clique) < 3: continue
            none, one = TRUE, FALSE      # no text begins in two ways
            for t in sorted(clique, key=lambda t: -atom(t).v):
                a = atom(t)
                none, one = none & ~a, (one & ~a) | (none & a)
            th = th & (none | one)
            apart.add(frozenset(clique))
    for x, l in byeq.items():
        # at most one constant
        none, one = TRUE, FALSE
        for c, t in l:
            a = atom(t)
            none, one = none & ~a, (one & ~a) | (none & a)
        if len(l) > 1: th = th & (none | one)
        fixes = [f for f in byfix.get(x, []) if f.a[1].op == 's']
        if fixes:
            given = none      # one constant also says how the text begins and ends
            for c, t in l:
                cube = [(atom(u), u is t) for _, u in l]
                if c.op == 's': cube += [(atom(f), {'prefix': c.a[0].startswith(f.a[1].a[0]), 'suffix': c.a[0].endswith(f.a[1].a[0]), 'substr?': f.a[1].a[0] in c.a[0]}[f.op]) for f in fixes]
                k = TRUE
                for a, v in sorted(cube, key=lambda z: -z[0].v): k = (a if v else ~a) & k
                given = given | k
            th = th & given
        if x.op == 'call' and x.a[0] == 'getAccess' and len({c for c, _ in l if c.op == 'enum'}) == 3 and x.a[1][0].op == 'elem' and x.a[1][0].a[0].op == 'range' and x.a[1][0].a[0].a[0] == 'decl':
            th = th & ~none
        for c, t in l:
            if c.op == 's':
                if x in nes: th = th & imp(atom(t), atom(nes[x]) if c.a[0] else ~atom(nes[x]))
                for m, ll in bylin.items():
                    if len(m) == 1 and m[0][0].op == 'size' and m[0][0].a[0] is x:
                        for k, g in ll: th = th & imp(atom(t), atom(g) if m[0][1] * len(c.a[0]) + k >= 0 else ~atom(g))
    for x, l in byisa.items():
        if x in nns:
            for t in l: th = th & imp(atom(t), atom(nns[x]))
        for t in l:
            canon = bycall.get((x,), {}).get('is' + t.a[0])
            if canon is not None: th = th & imp(atom(t), atom(canon))
        for i, t in enumerate(l):
            for u in l[i + 1:]:
                a, b = t.a[0], u.a[0]
                if b in supers(a): th = th & imp(atom(t), atom(u))
                elif a in supers(b): th = th & imp(atom(u), atom(t))
                elif a in PARENT and b in PARENT: th = th & ~(atom(t) & atom(u))
    for (R, d), l in byex.items():
        for t in l:
            g = t.a[2]
            inner = theory(atoms_of(g))
            for u in l:
                if u is t: continue
                both = theory(atoms_of(g) + atoms_of(u.a[2]))
                if implies(g & both, u.a[2]): th = th & imp(atom(t), atom(u))
            others = [u for u in l if u is not t]
            if len(others) > 1:
                cover, cov = FALSE, FALSE
                for u in others:
                    if (u.a[2] & g) is not FALSE:
                        cover, cov = cover | u.a[2], cov | atom(u)
                if cover is not FALSE and implies(g & theory(atoms_of(g) + [y for u in others for y in atoms_of(u.a[2])]), cover): th = th & imp(atom(t), cov)
            if (g & inner) is FALSE: th = th & ~atom(t)
            for n in (R, rng_list(R)):
                if n in nes: th = th & imp(atom(t), atom(nes[n]))
    for m, l in bylin.items():
        l.sort(key=lambda x: x[0])
        for (c1, t1), (c2, t2) in zip(l, l[1:]): th = th & imp(atom(t1), atom(t2))
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in nns:
            z = atom(nns[m[0][0]])
            at0 = {c: atom(t) for c, t in l}
            for c, a in at0.items(): th = th & (imp(a, z) if c <= -1 else imp(~a, z))
            if 0 in at0 and -1 in at0: th = th & imp(z & at0[0], at0[-1])
        if len(m) == 1 and m[0][0].op == 'size' and m[0][1] == 1:
            x = m[0][0].a[0]
            if x in nes:
                for c, t in l:
                    if c <= -1: th = th & imp(atom(t), atom(nes[x]))
    lits = [t for t in ats if t.op in ('ge0', 'eq0') or t.op == 'eq' and all(isinstance(x, T) and numlike(x) for x in t.a) and any(x.op in ('size', 'idx', 'lin') for x in t.a)]
    if len(lits) > 1 or any(y.op in ('idx', 'firstidx') for t in lits for y in subterms(t)): th = th & linear(lits, nes)
    for x, l in byfix.items():
        for t in l:
            if t.a[1].op != 's': continue
            if x in nes: th = th & imp(atom(t), atom(nes[x]))
            for u in l:
                if u is t or u.a[1].op != 's' or any(t in k and u in k for k in apart): continue
                p, q = t.a[1].a[0], u.a[1].a[0]
                if t.op == u.op == 'prefix':
                    if p.startswith(q): th = th & imp(atom(t), atom(u))
                    elif not q.startswith(p): th = th & ~(atom(t) & atom(u))
                elif t.op == u.op == 'suffix':
                    if p.endswith(q): th = th & imp(atom(t), atom(u))
                    elif not q.endswith(p): th = th & ~(atom(t) & atom(u))
                elif u.op == 'substr?' and q in p: th = th & imp(atom(t), atom(u))
            for m, ll in bylin.items():
                if len(m) == 1 and m[0][0].op == 'size' and m[0][0].a[0] is x and m[0][1] == 1:
                    for c, g in ll:
                        if -c <= len(t.a[1].a[0]): th = th & imp(atom(t), atom(g))
    for t in ats:
        if t.op == 'has':
            for n in (t.a[0], rng(t.a[0])):
                if n in nes: th = th & imp(atom(t), atom(nes[n]))
    for a, d in bycall.items():
        for fs, g in TYPE_FACTS:
            for f in fs:
                if f in d and g in d: th = th & imp(atom(d[f]), atom(d[g]))
        ks = [f for f in d if f in KINDS]
        for i, f in enumerate(ks):
            for g in ks[i + 1:]:
                if not KINDS[f] & KINDS[g]: th = th & ~(atom(d[f]) & atom(d[g]))
                elif KINDS[f] <= KINDS[g]: th = th & imp(atom(d[f]), atom(d[g]))
                elif KINDS[g] <= KINDS[f]: th = th & imp(atom(d[g]), atom(d[f]))
        tag = nns.get(mk('call', 'getAsTagDecl', a)) if len(a) == 1 else None
        if tag is not None:
            for f in ks:
                if not KINDS[f] & TAGS: th = th & ~(atom(d[f]) & atom(tag))
        for f, g in EXCLUSIVE:
            if f in d and g in d: th = th & ~(atom(d[f]) & atom(d[g]))
        if len(a) == 1:
            for n in (a[0], mk('call', 'getCanonicalType', a)):
                if n in nns:
                    for f in d:
                        if f.startswith('is') and f.endswith('Type'): th = th & imp(atom(d[f]), atom(nns[n]))
        if 'isLValueReferenceType' in d and 'isRValueReferenceType' in d and 'isReferenceType' in d:
            th = th & imp(atom(d['isReferenceType']), atom(d['isLValueReferenceType']) | atom(d['isRValueReferenceType']))
    _thmemo[ats] = th
    return th


def forget(b, drop):
    """the part of b that holds whatever the atoms accepted by drop are"""
    for v in support(b):
        if drop(atom_term(v)): b = cofactor(b, v, True) & cofactor(b, v, False)
    return b


def sat(b, assume=TRUE):
    """an assignment of b that is consistent with the background facts, or None"""
    b = b & assume
    if b is FALSE: return None
    ats = atoms_of(b)
    b = b & theory(ats)
    if b is FALSE: return None
    return one_path(b)


def definite(b, known=frozenset(), assume=TRUE):
    """an assignment of b that does not depend on atoms the interpreter could not follow (other than the known ones)"""
    b = b & assume
    if b is FALSE: return None
    b = b & theory(atoms_of(b))
    b = forget(b, lambda t: t not in known and opaque(t, known))
    return None if b is FALSE else one_path(b)


def holds(g, c, assume=TRUE):
    """g implies c in the background theory"""
    return sat(g & ~c, assume) is None


def say(path, n=8):
    """an assignment in words"""
    if path is None: return 'never'
    path = sorted(path, key=lambda x: not x[1])
    return ' & '.join(('' if v else '!') + show(t, 7) for t, v in path[:n]) + (' & …' if len(path) > n else '') if path else 'always'


# ------------------------------------------------------------------------------------------------ comparing texts and values
class Diff:
    """one disagreement: where, the specification's property tags, and what differs"""
    __slots__ = ('pc', 'code', 'spec', 'tags', 'sure', 'path')

    def __repr__(self): return '%s: under [%s] specified %s, found %s' % ('/'.join(self.tags) or '-', say(self.path), self.spec, self.code)


def tag(p, *ts):
    """a piece of a specification that belongs to property p (or properties 'C01 C02')"""
    return mk('tag', p, cat(*ts))


class Cell:
    __slots__ = ('h', 't', 'tags', 'n')


_cells = {}


def size_of(p):
    if p.op == 'ite': return 1 + max(seq_size(p.a[1]), seq_size(p.a[2]))
    if p.op == 'tag': return 1 + seq_size(p.a[1])
    return 1


_ss = {}


def seq_size(t):
    r = _ss.get(t)
    if r is None:
        r = _ss[t] = sum(size_of(p) for p in pieces(t))
    return r


def cons(h, t, tags):
    k = (h, t, tags)
    c = _cells.get(k)
    if c is None:
        c = Cell()
        c.h, c.t, c.tags = h, t, tags
        c.n = (t.n if t else 0) + size_of(h)
        if h.op == 's': c.n += len(h.a[0]) / 1e6
        _cells[k] = c
    return c


def push(t, rest, tags):
    for p in reversed(pieces(t)): rest = cons(p, rest, tags)
    return rest


def asb(t):
    """t as a truth value; a call or parameter stands for the truth value it yields"""
    if isinstance(t, B): return t
    if t.op == 'ite': return bite(t.a[0], asb(t.a[1]), asb(t.a[2]))
    if t.op in ('call', 'p'): return atom(t)
    return tob(t)


class Compare:
    def __init__(self, assume=TRUE, known=()):
        self.assume, self.known, self.diffs = assume, frozenset(known), []
        self.obligations = 0
        self.undecided = []

    def conds(self, code, spec, pc=TRUE, tags=(), what='condition', under=None):
        """code and spec agree under pc; tags: code true though spec false, under: the other way round"""
        self.obligations += 1
        d = bite(code, ~spec, spec) & pc
        p = sat(d, self.assume)
        if p is None: return True
        for b, w, t in ((code & ~spec, (what + ' true', what + ' false'), tags), (spec & ~code, (what + ' false', what + ' true'), tags if under is None else under)):
            if sat(b & pc, self.assume) is None: continue
            self.diff(b & pc, w[0], w[1], t)
        return False

    def conj(self, code, parts, under, what, pc=TRUE):
        """code is the conjunction of parts [(property, condition)]; code false although all hold is the matter of `under`"""
        all_ = TRUE
        for _, c in parts: all_ = all_ & c
        self.obligations += len(parts) + 1
        for i, (p, c) in enumerate(parts):
            b = code & ~c & pc
            if sat(b, self.assume) is not None: self.diff(b, what + ' holds', 'must not hold when ' + showb(~c, 8), tuple(p.split()))
        b = all_ & ~code & pc
        if sat(b, self.assume) is not None: self.diff(b, what + ' does not hold', what + ' holds', tuple(under.split()))

    loc, pend = None, ()

    def diff(self, pc, code, spec, tags, sure=True):
        if self.loc is not None: # while walking texts: decided at the end, by place
            self.walk.setdefault(self.loc, []).append((pc, code, spec, tuple(tags), sure, self.pend))
            return
        p = definite(pc, self.known, self.assume) if sure else None
        x = Diff()
        x.pc, x.code, x.spec, x.tags, x.sure, x.path = pc, code, spec, tuple(tags), p is not None, p
        if p is None:
            q = sat(pc, self.assume)
            if q is None: return
            x.path = q
            self.undecided.append(x)
        else: self.diffs.append(x)

    def texts(self, code, spec, pc=TRUE, tags=()):
        """the texts (or lists) agree, piece by piece, on every input satisfying pc"""
        outer = self.loc, getattr(self, 'walk', None), self.pend
        self.walk = {}
        try: self._texts(code, spec, pc, tags)
        finally:
            w = self.walk
            self.loc, self.walk, self.pend = outer
        for l in w.values():
            for pc_, code_, spec_, tags_, sure, pend in self.minimal(l): self.diff(pc_, code_, spec_, tags_, sure)

    def minimal(self, l):
        """of the disagreements at one place, those that involve the fewest withheld pieces"""
        sure = [x for x in l if x[4] and definite(x[0], self.known, self.assume) is not None]
        l = sure or l
        return [x for x in l if not any(set(y[5]) < set(x[5]) for y in l)]

    def _texts(self, code, spec, pc=TRUE, tags=()):
        """the texts (or lists) agree, piece by piece, on every input satisfying pc"""
        import heapq
        self.obligations += 1
        start = (push(code, None, ()), push(spec, None, tuple(tags)), ())
        states = {start: pc}
        heap, cnt = [], 0

        def put(a, b, pend, g):
            nonlocal cnt
            if g is FALSE: return
            k = (a, b, pend)
            if k in states: states[k] = states[k] | g
            else:
                states[k] = g
                cnt += 1
                heapq.heappush(heap, (-((a.n if a else 0) + (b.n if b else 0)), cnt, k))
        heapq.heappush(heap, (0, 0, start))
        steps = 0
        while heap:
            _, _, k = heapq.heappop(heap)
            g = states.pop(k)
            a, b, pend = k
            steps += 1
            if steps > 60000:
                self.undecided.append(None)
                return
            if (g & self.assume) is FALSE: continue
            if b is not None and b.h.op == 'tag':
                p = tuple(b.h.a[0].split())
                if b.h.a[1] is EMPTY:
                    put(a, b.t, pend + tuple(x for x in p if x not in pend), g)
                else: put(a, push(b.h.a[1], b.t, p), pend, g)
                continue
            if a is None and b is None: continue
            if a is not None and a.h.op == 'ite':
                c = a.h.a[0]
                put(push(a.h.a[1], a.t, ()), b, pend, g & c)
                put(push(a.h.a[2], a.t, ()), b, pend, g & ~c)
                continue
            if b is not None and b.h.op == 'ite':
                c = b.h.a[0]
                put(a, push(b.h.a[1], b.t, b.tags), pend, g & c)
                put(a, push(b.h.a[2], b.t, b.tags), pend, g & ~c)
                continue
            tags_ = pend or (b.tags if b is not None else tuple(tags))
            self.loc, self.pend = (a, b), pend
            if a is None or b is None:
                if sat(g, self.assume) is None: continue
                h = (a or b).h
                if h.op == 'star' and sat(g & nonempty(h), self.assume) is None: 
                    put(a.t if a else None, b.t if b else None, pend, g)
                    continue
                if h.op == 'star': g2 = g & nonempty(h)
                elif h.op not in ('s', 'item', 'kv', 'chr'): g2 = g & nonempty(h)
                else: g2 = g
                self.diff(g2, show(h, 8) if a else 'the text ends', show(h, 8) if b else 'the text ends', tags_, sure=not opaque_piece(h, self.known) or b is not None)
                continue
            x, y = a.h, b.h
            if x is y:
                put(a.t, b.t, (), g)
                continue
            if x.op == 's' and y.op == 's':
                s, t = x.a[0], y.a[0]
                n = 0
                while n < len(s) and n < len(t) and s[n] == t[n]: n += 1
                if n == 0 or n < len(s) and n < len(t):
                    if sat(g, self.assume) is not None: self.diff(g, repr(s[max(0, n - 20):n + 40]), repr(t[max(0, n - 20):n + 40]), tags_)
                    continue
                put(cons(mk('s', s[n:]), a.t, ()) if n < len(s) else a.t, cons(mk('s', t[n:]), b.t, b.tags) if n < len(t) else b.t, (), g)
                continue
            if sat(g, self.assume) is None: continue
            if x.op == 'star' and y.op == 'star' and x.a[0] is y.a[0]:
                sub = Compare(self.assume, self.known)
                self.loc = None
                bd = x.a[2] if x.a[1] == y.a[1] else substitute(x.a[2], {elem(x.a[0], x.a[1]): elem(y.a[0], y.a[1]), mk('idx', *x.a[:2]): mk('idx', *y.a[:2])})
                sub.texts(bd, y.a[2], g, b.tags)
                self.merge(sub)
                put(a.t, b.t, (), g)
                continue
            if x.op == 'star' and y.op == 'star':
                self.diff(g, show(x, 6), show(y, 6), tags_, sure=not opaque(x, self.known))
                continue
            if y.op == 'star' or x.op == 'star':
                # one side loops here and the other does not: different unless the loop yields nothing
                s_ = x if x.op == 'star' else y
                self.diff(g & nonempty(s_), show(x, 6), show(y, 6), tags_, sure=not opaque(x, self.known))
                if sat(g & ~nonempty(s_), self.assume) is not None: put(a.t if s_ is x else a, b.t if s_ is y else b, pend, g & ~nonempty(s_))
                continue
            if x.op in ('s', 'item', 'kv') and y.op in ('s', 'item', 'kv') and x.op != y.op:
                self.diff(g, show(x, 6), show(y, 6), tags_)
                continue
            # a piece known to be empty here can be skipped
            skipped = False
            for z, on in ((x, a), (y, b)):
                if z.op in ('s', 'item', 'kv', 'chr'): continue
                n = nonempty(z)
                if n is TRUE or (g & n) is g or not set(support(n)) & set(support(g)): continue
                if (g & n) is FALSE or sat(g & n, self.assume) is None: e = g
                elif (g & ~n) is not FALSE: e = g & ~n
                else: continue
                put(a.t if on is a else a, b.t if on is b else b, pend, e)
                put(a, b, pend, g & n & ~e)
                skipped = True
                break
            if skipped: continue
            self.values(x, y, g, tags_)
            put(a.t, b.t, (), g) if x.op == y.op else None
        return

    def merge(self, sub):
        self.obligations += sub.obligations
        self.diffs += sub.diffs
        self.undecided += sub.undecided

    def values(self, x, y, g=TRUE, tags=()):
        """the values agree under g"""
        if isinstance(y, T) and y.op == 'tag': return self.values(x, y.a[1], g, tuple(y.a[0].split()))
        if x is y: return True
        if g is FALSE or sat(g, self.assume) is None: return True
        if isinstance(x, B) or isinstance(y, B): return self.conds(asb(x), asb(y), g, tags)
        if isinstance(x, T) and isinstance(y, T):
            if x.op == 'b' or y.op == 'b': return self.conds(asb(x), asb(y), g, tags)
            if x.op == 'ite': return self.values(x.a[1], y, g & x.a[0], tags) & self.values(x.a[2], y, g & ~x.a[0], tags)
            if y.op == 'ite': return self.values(x, y.a[1], g & y.a[0], tags) & self.values(x, y.a[2], g & ~y.a[0], tags)
            if x.op in ('cat', 's', 'star', 'nil') and y.op in ('cat', 's', 'star', 'nil') or y.op == 'cat' or x.op == 'cat':
                n = len(self.diffs) + len(self.undecided)
                self.texts(x, y, g, tags)
                return n == len(self.diffs) + len(self.undecided)
            if x.op == y.op == 'call' and x.a[0] == y.a[0] and len(x.a[1]) == len(y.a[1]) and x.a[0] not in STRINGOPS:
                r = True
                if x.a[0].startswith('bind_') and 'C04' in tags and 'C11' not in tags: tags = tuple(tags) + ('C11',)      # something is bound, but not what should be
                for p, q in zip(x.a[1], y.a[1]): r &= self.values(p, q, g, tags)
                return r
            if x.op == y.op == 'call' and x.a[0] == y.a[0] and len(x.a[1]) != len(y.a[1]):
                self.diff(g, show(x, 8), show(y, 8), tags, False)      # an operation whose interface changed
                return False
            if x.op == y.op == 'out' and x.a[:2] == y.a[:2]: return self.tuples(x.a[2], y.a[2], g, tags)
            if x.op == y.op and x.op in ('item', 'kv', 'tup', 'fld', 'rec', 'new', 'has', 'at', 'tostr', 'size', 'mut', 'upd', 'addr', 'ctor', 'setof', 'stream', 'indent'):
                return self.tuples(x.a, y.a, g, tags)
            if x.op == y.op and (x.op == 'call' and x.a[0] == y.a[0] and len(x.a[1]) == len(y.a[1]) or x.op in ('chop', 'setat', 'lin')):
                sub = Compare(self.assume, self.known)
                if sub.tuples(x.a, y.a, g, tags): return True
            if sat(g & ~eq(x, y), self.assume) is None: return True
        elif isinstance(x, tuple) and isinstance(y, tuple): return self.tuples(x, y, g, tags)
        elif x == y: return True
        sure = not (isinstance(x, T) and opaque(x, self.known)) or cut_elsewhere(x, y, g)
        self.diff(g, show(x, 8), show(y, 8), tags, sure)
        return False

    def tuples(self, x, y, g, tags):
        if len(x) != len(y):
            self.diff(g, show(x, 6), show(y, 6), tags, not any(isinstance(p, T) and opaque(p, self.known) for p in x))
            return False
        r = True
        for p, q in zip(x, y):
            if p is q or p == q and not isinstance(p, (T, B)): continue
            r &= self.values(p, q, g, tags)
        return r


def cut_elsewhere(x, y, g=TRUE):
    """two parts of the same text that begin at different constant places (one character earlier may be a space and is left open)"""
    if not (isinstance(x, T) and isinstance(y, T) and x.op == y.op == 'call' and x.a[0] == y.a[0] == 'substr' and x.a[1] and y.a[1] and x.a[1][0] is y.a[1][0]): return False
    n, m = [t.a[1][1] if len(t.a[1]) > 1 else None for t in (x, y)]
    if not all(isinstance(k, T) and k.op == 'int' for k in (n, m)): return False
    n, m = n.a[0], m.a[0]
    if n > m or n < m - 1: return True
    return any(t.op == 'prefix' and t.a[0] is x.a[1][0] and t.a[1].op == 's' and len(t.a[1].a[0]) > n and not t.a[1].a[0][n].isspace() and holds(g, atom(t)) for t in atoms_of(g))


def opaque_piece(h, known): return opaque(h, known)
