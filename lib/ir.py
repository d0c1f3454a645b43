"""Hash-consed terms and reduced ordered decision diagrams over term atoms (path conditions)."""
import sys

sys.setrecursionlimit(200000)


class T:
    """A term: operator and arguments (terms, conditions, strings, ints, tuples)."""
    __slots__ = ('op', 'a', 'id')

    def __repr__(self): return show(self, 6)


_terms = {}


def mk(op, *a):
    k = (op,) + a
    t = _terms.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, len(_terms)
        _terms[k] = t
    return t


class B:
    """A condition: decision diagram node."""
    __slots__ = ('v', 'hi', 'lo', 'id')

    def __repr__(self): return showb(self)

    def __and__(s, o): return bite(s, o, FALSE)

    def __or__(s, o): return bite(s, TRUE, o)

    def __invert__(s): return bite(s, FALSE, TRUE)


TRUE, FALSE = B(), B()
TRUE.v = FALSE.v = 1 << 60
TRUE.hi = TRUE.lo = FALSE.hi = FALSE.lo = None
TRUE.id, FALSE.id = 1, 0
_bnodes = {}
_atoms = {}      # term -> index
_atom_of = []    # index -> term
_itememo = {}


def _bmk(v, hi, lo):
    if hi is lo: return hi
    k = (v, hi, lo)
    b = _bnodes.get(k)
    if b is None:
        b = B()
        b.v, b.hi, b.lo, b.id = v, hi, lo, len(_bnodes) + 2
        _bnodes[k] = b
    return b


def atom(t):
    i = _atoms.get(t)
    if i is None:
        i = len(_atom_of)
        _atoms[t] = i
        _atom_of.append(t)
    return _bmk(i, TRUE, FALSE)


def atom_term(i): return _atom_of[i]


def bite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a is TRUE and b is FALSE: return c
    k = (c, a, b)
    r = _itememo.get(k)
    if r is not None: return r
    v = min(c.v, a.v, b.v)
    c1, c0 = (c.hi, c.lo) if c.v == v else (c, c)
    a1, a0 = (a.hi, a.lo) if a.v == v else (a, a)
    b1, b0 = (b.hi, b.lo) if b.v == v else (b, b)
    r = _bmk(v, bite(c1, a1, b1), bite(c0, a0, b0))
    _itememo[k] = r
    return r


_consmemo = {}


def constrain(f, c):
    """Generalised cofactor: some g with g & c == f & c, usually smaller than f."""
    if c is TRUE or c is FALSE or f is TRUE or f is FALSE: return f
    if f is c: return TRUE
    k = (f, c)
    r = _consmemo.get(k)
    if r is not None: return r
    v = min(f.v, c.v)
    f1, f0 = (f.hi, f.lo) if f.v == v else (f, f)
    c1, c0 = (c.hi, c.lo) if c.v == v else (c, c)
    if c1 is FALSE: r = constrain(f0, c0)
    elif c0 is FALSE: r = constrain(f1, c1)
    elif f1 is f0:
        r = constrain(f, c1 | c0)   # 'restrict': do not introduce variables f does not depend on
    else: r = _bmk(v, constrain(f1, c1), constrain(f0, c0))
    _consmemo[k] = r
    return r


def support(b):
    seen, out, st = set(), set(), [b]
    while st:
        x = st.pop()
        if x is TRUE or x is FALSE or x in seen: continue
        seen.add(x)
        out.add(x.v)
        st.append(x.hi)
        st.append(x.lo)
    return sorted(out)


def atoms_of(b): return [_atom_of[v] for v in support(b)]


def cofactor(b, v, val):
    memo = {}

    def go(x):
        if x is TRUE or x is FALSE or x.v > v: return x
        if x.v == v: return x.hi if val else x.lo
        r = memo.get(x)
        if r is None:
            r = memo[x] = _bmk(x.v, go(x.hi), go(x.lo))
        return r
    return go(b)


def implies(a, b): return bite(a, b, TRUE) is TRUE


def subst_b(b, f):
    """Replace atoms by conditions: f(term) -> B or None (keep)."""
    memo = {}

    def go(x):
        if x is TRUE or x is FALSE: return x
        r = memo.get(x)
        if r is None:
            t = _atom_of[x.v]
            c = f(t)
            if c is None: c = atom(t)
            r = memo[x] = bite(c, go(x.hi), go(x.lo))
        return r
    return go(b)


def one_path(b):
    """Some satisfying assignment as a list of (atom term, bool); None if unsatisfiable."""
    if b is FALSE: return None
    out = []
    while b is not TRUE:
        if b.lo is not FALSE and not (b.hi is not FALSE and _positive(_atom_of[b.v])):
            out.append((_atom_of[b.v], False))
            b = b.lo
        else:
            out.append((_atom_of[b.v], True))
            b = b.hi
    return out


def _positive(t): return t.op in ('nn', 'isa')


# ---------------------------------------------------------------- printing
def short(fn): return fn.split('::')[-1] if not fn.startswith('operator') else fn


def show(t, d=8):
    if isinstance(t, B): return showb(t, d)
    if isinstance(t, tuple): return '[' + ', '.join(show(x, d) for x in t) + ']'
    if not isinstance(t, T): return str(t)
    if d <= 0: return '…'
    o, a = t.op, t.a
    if o == 's': return repr(a[0])
    if o in ('int', 'chr'): return str(a[0])
    if o == 'enum': return short(a[0])
    if o == 'null': return 'null'
    if o == 'p': return a[0]
    if o == 'call': return short(a[0]) + '(' + ', '.join(show(x, d - 1) for x in a[1]) + ')'
    if o == 'fld': return show(a[0], d - 1) + '.' + a[1]
    if o == 'this': return 'this'
    if o == 'g': return a[0]
    if o == 'cfg': return 'config'
    if o == 'elem': return 'each(' + show(a[0], d - 1) + ')' + ("'" * a[1] if isinstance(a[1], int) and a[1] > 1 else '')
    if o == 'range': return show(a[1], d - 1) + ('.' + a[0] + 's' if a[0] != 'elems' else '')
    if o == 'isa': return 'isa<' + a[0].split('::')[-1] + '>(' + show(a[1], d - 1) + ')'
    if o == 'cat': return '+'.join(show(x, d - 1) for x in a[0])
    if o == 'ite': return '(' + showb(a[0], d - 1) + ' ? ' + show(a[1], d - 1) + ' : ' + show(a[2], d - 1) + ')'
    if o == 'star': return 'each[' + show(a[0], d - 1) + ']{' + show(a[2], d - 1) + '}'
    if o == 'b': return showb(a[0], d - 1)
    return o + '(' + ', '.join(show(x, d - 1) for x in a) + ')'


def showb(b, d=8):
    if b is TRUE: return 'true'
    if b is FALSE: return 'false'
    cubes = []

    def go(x, acc):
        if len(cubes) > 6: return
        if x is FALSE: return
        if x is TRUE:
            cubes.append(acc)
            return
        s = show(_atom_of[x.v], d - 1)
        go(x.hi, acc + [s])
        go(x.lo, acc + ['!' + s])
    go(b, [])
    r = ' | '.join(' & '.join(c) for c in cubes[:6])
    return r + (' | …' if len(cubes) > 6 else '')


# ---------------------------------------------------------------- traversal
_submemo = {}


def subterms(t):
    """All terms below t (through conditions too), t included."""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, (T, B)):
            if x in seen: continue
            seen.add(x)
        if isinstance(x, T):
            yield x
            st.extend(x.a)
        elif isinstance(x, B):
            if x is TRUE or x is FALSE: continue
            st.extend(atoms_of(x))
        elif isinstance(x, (tuple, list)):
            st.extend(x)


_hasmemo = {}


def contains_term(t, sub):
    k = (t, sub)
    r = _hasmemo.get(k)
    if r is None:
        r = _hasmemo[k] = any(x is sub for x in subterms(t))
    return r


def contains_op(t, ops):
    return any(x.op in ops for x in subterms(t))


def tree(t, ind=0, out=None, width=150):
    """Readable nested form of a text / value term."""
    if out is None: out = []
    pad = '  ' * ind
    if isinstance(t, B):
        out.append(pad + showb(t, 14))
    elif t.op == 'cat':
        for p in t.a[0]: tree(p, ind, out)
    elif t.op == 'ite':
        out.append(pad + 'IF ' + showb(t.a[0], 14))
        tree(t.a[1], ind + 1, out)
        if not (t.a[2].op == 's' and t.a[2].a[0] == ''):
            out.append(pad + 'ELSE')
            tree(t.a[2], ind + 1, out)
    elif t.op == 'star':
        out.append(pad + 'FOR ' + show(t.a[0], 14))
        tree(t.a[2], ind + 1, out)
    elif t.op == 'call' and t.a[0] == 'indent':
        out.append(pad + 'INDENT ' + show(t.a[1][1]))
        tree(t.a[1][0], ind + 1, out)
    else: out.append(pad + show(t, 14))
    return out
