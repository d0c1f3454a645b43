"""Writing the generated code: files, names, root module, lists of sources and modules."""
from check import *

T_ = THIS('Context')
BINDERS = T_.f('binders')
RB = elems(BINDERS)
STOPS = ('sort_binders', 'create_all_nested_namespaces', 'file_name_prefix_for_binder', 'generate_include_directives', 'trace_line')
O = lambda n: nn(G(n))
I, FILE, NAME, ENT, SIZE = (mk('sym', x) for x in ('FIRST', 'FILE', 'NAME', 'ENTRANCE', 'CODE'))
ns = lambda x: x.named_decl().namespace_from_named_decl()
B0 = at_(BINDERS, V(I))
NS = ns(B0)
SUFFIX = '(std::function< pybind11::module &(std::string const &namespace_) > &M)'


def rewrite(t, f, memo=None):
    """f applied to every term below t, bottom up"""
    memo = {} if memo is None else memo

    def go(t):
        if isinstance(t, tuple): return tuple(go(x) for x in t)
        if not isinstance(t, (T, B)) or t is TRUE or t is FALSE: return t
        r = memo.get(t)
        if r is not None: return r
        if isinstance(t, B): r = engine.subst_b(t, lambda a: engine.tob_atom(go(a)))
        else:
            a = tuple(go(x) for x in t.a)
            r = t if a == t.a else engine.rebuild(t.op, a)
            if isinstance(r, T): r = f(r)
        memo[t] = r
        return r
    return go(t)


def only(pc, keep):
    """pc with the atoms not accepted by keep left open"""
    for v in support(pc):
        if not keep(atom_term(v)): pc = cofactor(pc, v, True) | cofactor(pc, v, False)
    return pc


def whole(x):
    """a loop left early or not, otherwise the same"""
    if x.op != 'ite' or not isinstance(x.a[1], T) or not isinstance(x.a[2], T) or not engine.contains_op(x.a[1], ('upto',)): return x
    return x.a[1] if rewrite(x.a[1], lambda y: y.a[3] if y.op == 'upto' else y) is rewrite(x.a[2], lambda y: y.a[3] if y.op == 'upto' else y) else x


def until(x):
    """what is done up to the element that ends a loop is done for elements that do not end it (its length aside)"""
    if x.op != 'upto': return x
    R, d, g, t = x.a
    w = only(~g, lambda a: not any(y.op in ('lv', 'sym') and y is not I for y in subterms(a)) or a.op == 'eq')
    if w is TRUE: return t
    return rewrite(t, lambda y: star(R, d, ite(w, y.a[2], EMPTY)) if y.op == 'star' and y.a[0] is R and y.a[1] == d else y)


class Gen:
    """the generation of files, taken apart"""

    def __init__(self, c):
        self.s = s = c.sum('Context::generate', 'Config', stop=STOPS)
        E = s.E
        up = [e for e in E.events if e.fn == 'update_source_file']
        if len(up) != 1 or len(up[0].args) != 3: raise Missing('not one place where generated files are written')
        self.up = e = up[0]
        if len(e.loops) != 1 or e.loops[0][0] not in E.whiles: raise Missing('generated files are not written by one loop over the binders')
        self.W = E.whiles[e.loops[0][0]]
        if self.W[2]: raise Missing('the loop over the binders is left in between')
        self.loop = e.loops[0][0]
        idx = {x.a[1] for a in e.args for x in subterms(a) if x.op == 'at' and x.a[0] is u(BINDERS) and x.a[1].op == 'lv' and x.a[1] in self.W[1]}
        if len(idx) != 1: raise Missing('no index of the binder a file starts with')
        self.i = idx.pop()
        self.prefix, fn, text = e.args
        p = engine.pieces(fn)
        if p[-1].op != 's' or not p[-1].a[0].endswith('.cpp'):
            if p[-1].op == 's': c.require(False, 'a generated file does not end in .cpp', 'C09', s.where())
            raise Missing('the names of generated files do not end in .cpp')
        self.file = cat(*p[:-1], mk('s', p[-1].a[0][:-4]))
        ps = engine.pieces(text)
        end = [j for j, x in enumerate(ps) if x.op == 's' and '(std::function< pybind11::module &' in x.a[0]]
        if len(end) != 1: raise Missing('the binding function of a generated file was not found')
        end = end[0]
        cut = ps[end].a[0].index('(std::function< pybind11::module &')
        if 'void ' in ps[end].a[0][:cut]: raise Missing('the name of the binding function is fixed')
        k = [j for j, x in enumerate(ps[:end]) if x.op == 's' and 'void ' in x.a[0]]
        if not k: raise Missing('the binding function of a generated file was not found')
        k = k[-1]
        self.name = cat(mk('s', ps[k].a[0][ps[k].a[0].rindex('void ') + 5:]), *ps[k + 1:end], mk('s', ps[end].a[0][:cut]))
        self.m = {self.i: I}
        self.seqs = []
        for t, sym in ((self.file, FILE), (self.name, NAME)):
            if t.op == 's': raise Missing('a name is fixed')
            if t.op == 'cat': self.seqs.append((engine.pieces(t), sym))
            else: self.m[t] = sym
        # the longer first: one may be part of the other
        self.seqs.sort(key=lambda x: -len(x[0]))
        # the counter of files per namespace
        self.ent = None
        t = self.t(text)
        lv = {x.a[0] for x in subterms(t) if x.op == 'at' and x.a[0].op == 'lv' and x.a[1] is u(NS)}
        if len(lv) == 1:
            self.ent = lv.pop()
            self.m[self.ent] = ENT
        self.text = self.t(text)

    def t(self, t):
        if self.seqs: t = rewrite(t, self.seq)
        t = substitute(t, self.m)
        # a namespace that was entered has been counted
        if self.ent is not None: t = rewrite(t, lambda x: mk('nn', at(ENT, x.a[1])) if x.op == 'has' and x.a[0] is ENT else x)
        return rewrite(rewrite(t, whole), until)

    def seq(self, x):
        """names that are made of pieces"""
        if x.op != 'cat': return x
        ps = list(engine.pieces(x))
        for pat, sym in self.seqs:
            j = 0
            while j + len(pat) <= len(ps):
                w = ps[j:j + len(pat)]
                ok, pre, post = True, '', ''
                for q, (a, b) in enumerate(zip(w, pat)):
                    if a is b: continue
                    if a.op == b.op == 's' and q == 0 and a.a[0].endswith(b.a[0]): pre = a.a[0][:len(a.a[0]) - len(b.a[0])]
                    elif a.op == b.op == 's' and q == len(pat) - 1 and a.a[0].startswith(b.a[0]): post = a.a[0][len(b.a[0]):]
                    else: ok = False
                if ok: ps[j:j + len(pat)] = [mk('s', pre), sym, mk('s', post)]
                j += 1
        return cat(*ps)

    def keep(self, x):
        """conditions that matter for the content of files: not whether files can be written, there are more binders, or a name is taken"""
        if x.op in ('fail', 'bad', 'failed'): return False
        if x.op in ('ge0', 'eq0') and any(y is engine.size(u(BINDERS)) for y in subterms(x)): return False
        if any(y in (NAME, FILE) for y in subterms(x)): return False
        return True

    def inside(self, kind):
        """the events of the loop itself"""
        out = []
        for e in self.s.E.events:
            if e.seq > self.up.seq and not e.loops: break
            if e.loops == self.up.loops and e.kind == kind: out.append(e)
        return out

    def content(self, path):
        """the text written to the file named path, or None if there is no such file"""
        streams = {e.args[0] for e in self.s.E.events if e.kind == 'write' and e.args[0].op == 'stream'}
        hit = [x for x in streams if x.a[1][0] is u(path)]
        if not hit: return None
        r = []
        for e in self.s.E.events:
            if e.kind != 'write' or e.args[0] is not hit[0]: continue
            x = ite(only(self.t(e.pc), self.keep), self.t(e.args[1]), EMPTY)
            if r and r[-1][0] == e.loops: r[-1][1] = cat(r[-1][1], x)
            else: r.append([e.loops, x])
        out = []
        for l, x in r:
            for R, d in reversed(l): x = star(R, d, x)
            out.append(x)
        return cat(*out)

    def absent(self, c, path, what, prop):
        """nothing is written to the file of that name"""
        E = self.s.E
        opened = [e.args[0] for e in E.events if e.kind == 'open' and e.fn in ('ofstream', 'fstream') and not e.loops]
        mine = [mk('stream', e.fn, e.args) for e in E.events if e.kind == 'open' and e.args[0] is u(path)]
        other = [e for e in E.events if e.kind not in ('open', 'write', 'close') and any(x.op == 'stream' and (not mine or x in mine) for a in e.args if isinstance(a, (T, B)) for x in subterms(mk('b', a) if isinstance(a, B) else a))]
        c.require(False, what, prop, self.s.where(), bool(opened) and not any(opaque(x) for x in opened) and not other and not E.opaque)
        raise Missing(what)


def gen(c):
    g = getattr(c.F, '_gen', None)
    if g is None: g = c.F._gen = Gen(c)
    c.sum('Context::generate', 'Config', stop=STOPS)
    if not hasattr(g, 'info'): g.info = {t: (r, d, {lv: (g.t(x), g.t(y)) for lv, (x, y) in m.items() if isinstance(x, (T, B)) and isinstance(y, (T, B))}) for t, (r, d, m) in g.s.E.loopinfo.items()}
    c.info = g.info
    return g


b = each(RB)
here = (ns(b) == NS) & V(ge0(mklin(0, {mk('idx', RB, 1): 1, I: -1})))
custom, addon = CONFIG.f('binder_for_namespaces_'), CONFIG.f('add_on_binder_for_namespaces_')
first = V(eq(at(ENT, u(NS)), mk('int', 0)))
call_of = lambda m: S('\n\t', at_(m, NS), '(M("', NS, '"));\n')
CODE = S(
    IF(has_(custom, NS), IF(first, TAG('C20', call_of(custom)), TAG('C20', '')), IF(has_(addon, NS), IF(first, TAG('C20', call_of(addon)), TAG('C20', '')))),
    FOR(RB, IF(here, IF(has_(custom, NS), TAG('C20', ''), S(IF(O('O_trace'), TAG('C22', T_.trace_line(b.id()))), IF(ne(b.f('code_')), TAG('C04', b.f('code_'))))))))
HEADER = S(TAG('C21', '\n#include <functional>\n#include <', CONFIG.f('pybind11_include_file_'), '>\n#include <string>\n', CONFIG.includes_code()),
           TAG('C14', '\n#ifndef BINDER_PYBIND11_TYPE_CASTER\n\t#define BINDER_PYBIND11_TYPE_CASTER\n\tPYBIND11_DECLARE_HOLDER_TYPE(T, ', CONFIG.f('holder_type_'),
               '<T>, false)\n\tPYBIND11_DECLARE_HOLDER_TYPE(T, T*, false)\n\tPYBIND11_MAKE_OPAQUE(', CONFIG.f('holder_type_'), '<void>)\n#endif\n\n'))


def filetext(inc):
    return S(TAG('C21', V(mk('call', 'generate_include_directives', (inc,)))), HEADER,
             FOR(RB, IF(here, IF(has_(custom, NS), TAG('C20', ''), TAG('C13', b.prefix_code())))),
             TAG('C09', 'void ', V(NAME), SUFFIX, '\n{\n'), CODE, '}\n')


def includes_term(c, t):
    l = [x.a[1][0] for x in subterms(t) if x.op == 'call' and x.a[0] == 'generate_include_directives']
    if len(set(l)) != 1: raise Missing('no include directives in a generated file')
    return l[0]


@ob('C04 C09 C13 C14 C20 C21 C22', 'a generated file consists of its include directives, the header, the prefix code and code of its binders in order, and one binding function around them')
def file_text(c):
    g = gen(c)
    inc = includes_term(c, g.text)
    c.cmp.known = frozenset(x for x in subterms(inc)) | {ENT}
    c.text(g.text, filetext(inc), 'C09')
    c.require(g.prefix is u(CONFIG.f('prefix')), 'generated files go to ' + show(g.prefix), 'C10 C22', g.s.where(), not opaque(g.prefix))
    c.cond(only(g.t(g.up.pc), g.keep), ~O('O_single_file') & ne(B0.f('code_')), 'C22 C09', 'C09 C04', 'a file is written')
    # single file output: the same text
    t = g.inside('write')
    if t:
        path = S(CONFIG.f('prefix'), '/', CONFIG.f('root_module'), '.cpp')
        txt = cat(*[ite(only(g.t(e.pc), g.keep), g.t(e.args[1]), EMPTY) for e in t])
        for e in t: c.require(e.args[0] is mk('stream', 'ofstream', (u(path),)), 'in single file mode code goes to ' + show(e.args[0]), 'C09 C22', g.s.where(), not opaque(e.args[0]))
        inc2 = includes_term(c, txt)
        c.text(txt, IF(O('O_single_file') & ne(B0.f('code_')), S(TAG('C22', '// File: ', V(FILE), '.cpp\n'), filetext(inc2), '\n\n')), 'C09 C22')
    else: c.require(False, 'in single file mode no code is written', 'C22 C09', g.s.where(), False)


@ob('C21 C22', 'a generated file includes what its namespace is configured with and what each of its binders needs')
def file_includes(c):
    g = gen(c)
    inc = includes_term(c, g.text)
    v = engine.fld(inc, 'includes_')
    ninc = CONFIG.f('namespace_includes_')
    spec = S(IF(has_(ninc, NS), FOR(elems(at_(ninc, NS)), lambda x: ITEM(x))),
             FOR(RB, IF(here & ~has_(custom, NS) & O('O_trace'), TAG('C22', ITEM(IF(O('O_annotate_includes'), '<iostream> // --trace', '<iostream>'))))))
    c.text(v, spec, 'C21')
    got = FALSE
    for e in g.s.E.events:
        if e.fn == 'add_relevant_includes' and e.loops == g.up.loops + ((RB, 1),) and e.args[0] is u(b):
            got = got | g.t(e.pc)
    base = set(atoms_of(g.t(g.up.pc))) - {atom_term(v) for v in support(cond(O('O_single_file')))}
    got = only(got, lambda x: x not in base and not any(y is u(CONFIG.f('maximum_file_length')) or y.op in ('fail', 'while', 'wval') for y in subterms(x)))
    c.conj(got, [('C20', ~has_(custom, NS)), ('C21', here)], 'C21', 'the includes of a binder are added', pc=ne(b.f('code_')))


@ob('C16 C09 C04 C22 C23 C20', 'a file holds the binders from its first one on to the next of another namespace or until it is long enough, at least one; the next file starts with the next binder')
def file_split(c):
    g = gen(c)
    R, d = RB, 1
    first = g.t(g.W[1][g.i][1])
    c.require(first is mk('int', 0), 'the first file starts with binder ' + show(first), 'C04 C09', g.s.where(), first.op == 'int')
    going = g.t(g.W[0])
    if isinstance(going, T): going = tob(going)
    inside = ge0(mklin(-1, {engine.size(u(BINDERS)): 1, I: -1}))
    differ = V(eq(I, engine.size(u(BINDERS))))
    if going is not inside and going is not ~cond(differ):
        c.require(False, 'files are written while ' + show(mk('b', going), 5), 'C04 C09 C16', g.s.where(), {atom_term(v).op for v in support(going)} == {'ge0'} and len(support(going)) == 1 and
                  set(engine.lin_of(atom_term(next(iter(support(going)))).a[0])[1]) == {engine.size(u(BINDERS)), I})
    nxt = g.t(g.W[1][g.i][2])
    fi = {x for x in subterms(nxt) if x.op == 'firstidx' and x.a[0] is RB}
    if len(fi) != 1: raise Missing('the binder the next file starts with was not determined')
    fi, = fi
    brk = fi.a[2]
    lens = {x.a[0] for x in subterms(brk) if x.op == 'size' and x.a[0].op == 'lv'}
    if len(lens) > 1: raise Missing('the length of the code was not recognised')
    for l in lens:
        brk = substitute(brk, {l: SIZE})
        inf = c.info.get(l.a[0])
        if inf and inf[0] is RB and l in inf[2]: c.require(contains_term(tot(inf[2][l][1]), u(b.f('code_'))), 'the limit is compared with the length of something else than the code', 'C22', g.s.where())
    start = V(eq(mk('idx', RB, 1), I))
    frm = V(ge0(mklin(0, {mk('idx', RB, 1): 1, I: -1})))
    full = ~less(V(size(SIZE)), CONFIG.f('maximum_file_length'))
    same = ns(b) == NS
    # at its first binder a file does not end
    pc = frm & (~start | same)
    c.cond(brk, ~same, 'C09', 'C23 C20', 'a file ends (while short)', pc=cond(pc & ~full))
    c.cond(brk, ~same | ~start, 'C16 C22', 'C22', 'a file ends (when long enough)', pc=cond(pc & full))
    # where the next one starts
    sz = engine.size(rng_list(RB))
    for cnd, leaf in leaves_of(nxt):
        def fact(t):
            if t.op == 'ge0':
                k, m = engine.lin_of(t.a[0])
                if set(m) == {fi, sz} and m[sz] == 1 and m[fi] == -1 and k >= -1: return TRUE
            return None
        cnd = engine.subst_b(cnd & inside, fact)
        empty = ~cond(ne(B0.f('code_')))
        if sat(cnd) is None: continue
        k, m = engine.lin_of(leaf)
        if sat(cnd & empty) is not None:
            ok = m == {I: 1} and k == 1
            c.require(ok, 'after a binder without code generation goes on with ' + show(leaf), 'C16' if m == {I: 1} and k <= 0 else 'C04 C09', g.s.where(), m == {I: 1})
        if sat(cnd & ~empty) is not None:
            if m == {fi: 1}: c.require(k == 0, 'the next file starts %+d binders off the place where this one ends' % k, 'C16 C09' if k < 0 else 'C04 C09', g.s.where())
            elif m == {sz: 1}: c.require(k >= 0, 'the last binder is bound again', 'C16 C09', g.s.where())
            elif m == {I: 1} and sat(cnd & ~empty & cond(~has_(V(sz), V(sz)))) is None: pass
            else: c.require(False, 'the next file starts with binder ' + show(leaf), 'C16 C09', g.s.where(), False)


def leaves_of(t, g=TRUE):
    if isinstance(t, T) and t.op == 'ite':
        yield from leaves_of(t.a[1], g & t.a[0])
        yield from leaves_of(t.a[2], g & ~t.a[0])
    elif g is not FALSE: yield g, t


ROOT = CONFIG.f('root_module')
BASE = S(CONFIG.f('prefix'), '/', ROOT)


def per_file(g, text):
    """text for every generated file, in order"""
    return V(star(g.loop, 1, u(IF(ne(B0.f('code_')), text))))


def counters(c, g):
    """(the loop that looks for a name or None, {variable: (before, after)})"""
    W = g.s.E.whiles
    w = [x for x in {y.a[0] for y in subterms(g.name) if y.op == 'wval'} | {y.a[0] for y in subterms(g.file) if y.op == 'wval'}]
    if len(w) > 1: raise Missing('more than one loop looks for a name')
    if not w: return None
    return W[mk('while', w[0])]


@ob('C09 C22', 'files are named after the header (or numbered, when flat), and functions after their file')
def file_names(c):
    g = gen(c)
    w = counters(c, g)
    f, n = g.file, g.name
    both = lambda x: [(x.a[2], x.a[1])] if x.op == 'wval' else [(x, x)]
    stem = call('file_name_prefix_for_binder', B0)
    sub = lambda t: substitute(t, {g.i: I})
    for ft, nt in zip(*[[y for x in both(z) for y in x] for z in (f, n)]):
        ft, nt = sub(ft), sub(nt)
        cnt = {x.a[0] for x in subterms(ft) if x.op == 'at' and x.a[0].op == 'lv'}
        if len(cnt) != 1: raise Missing('no counter of file names')
        cnt = V(cnt.pop())
        flat = S(ROOT, '_')
        spec = IF(O('O_flat'), S(TAG('C22', flat), tostr(at_(cnt, flat))), S(stem, IF(nn(at_(cnt, stem)), S('_', tostr(at_(cnt, stem))))))
        c.cmp.known = frozenset(subterms(u(spec)))
        c.text(ft, spec, 'C09')
        c.text(nt, S('bind_', V(rewrite_call(ft))), 'C09')


def rewrite_call(t):
    if t.op == 'ite': return ite(t.a[0], rewrite_call(t.a[1]), rewrite_call(t.a[2]))
    return mk('call', 'replace_', (t, mk('s', '/'), mk('s', '_')))


@ob('C09 C16', 'no two files share a function name (so none shares a path), no file takes the name of the root file, and each attempt to name a file differs from the one before')
def distinct_names(c):
    g = gen(c)
    w = counters(c, g)
    if w is None: raise Missing('names are not looked for by a loop')
    if w[2]: raise Missing('the loop that looks for a name is left from within')
    # names taken so far: a set to which every name is added, and which holds none of the chosen names before
    sets = {}
    for e in g.s.E.events:
        if e.kind == 'insert' and e.loops[:1] == g.up.loops and e.args and e.args[0].op == 'lv': sets.setdefault(e.args[0], []).append(e)
    again = w[0]
    lvn = [lv for lv, (k, a, z) in w[1].items() if g.name.op == 'wval' and z is g.name.a[1]]
    lvf = [lv for lv, (k, a, z) in w[1].items() if g.file.op == 'wval' and z is g.file.a[1]]
    if len(lvn) > 1 or len(lvf) > 1: raise Missing('the names tried were not recognised')
    taken = [t for t in atoms_of(again) if t.op == 'has' and t.a[1] in lvn + lvf]
    c.require(bool(taken), 'a name is accepted although it may be taken', 'C09', g.s.where(), not any(opaque(t, frozenset(w[1])) for t in atoms_of(again)))
    for t in taken:
        c.cond(again, V(TRUE), 'C09', what='another name is tried', pc=atom(t))
        sets_ = w[1].get(t.a[0])
        outer = g.W[1].get(t.a[0]) if sets_ is None else None
        ok = False
        if sets_ is not None:
            z = sets_[2]
            ps = engine.pieces(z)
            ok = ps[0] is t.a[0] and len(ps) == 2
            if ok: c.cond(nonempty(ps[1]), ~V(again), 'C09', 'C09', 'the name is recorded', pc=~again)
    if lvf:
        c.cmp.known = frozenset(w[1])
        c.cond(again, V(TRUE), 'C09', what='another name is tried when it is that of the root file', pc=cond(~O('O_single_file')) & eq(u(ROOT), lvf[0]))
    else: c.require(False, 'a generated file may take the name of the root file', 'C09', g.s.where(), not any(t.op not in ('has', 'nn', 'eq') for t in atoms_of(again)))
    for lv, (k, a, z) in w[1].items():
        if lv in lvn + lvf: continue
        cnt = [x for x in subterms(z) if x.op == 'kv']
        if not cnt: continue
        for x in cnt:
            key, val = x.a
            c.require(val is engine.add(at(lv, key), mk('int', 1)), 'the counter of a file name becomes ' + show(val, 6), 'C16 C09', g.s.where(), not opaque(val, frozenset(subterms(at(lv, key)))))


@ob('C20 C16', 'the files of a namespace are counted, so that its binders are called in the first one only')
def entrance(c):
    g = gen(c)
    if g.ent is None: raise Missing('no counter of the files of a namespace')
    k, a, z = g.W[1][g.ent]
    # counted, or only marked
    z = rewrite(g.t(z), lambda x: mk('kv', x.a[0], engine.add(at(ENT, x.a[0]), mk('int', 1))) if x.op == 'kv' and (tot(x.a[1]).op == 'int' and tot(x.a[1]).a[0] or x.a[1] is TRUE or tot(x.a[1]) is tot(TRUE)) else x)
    spec = S(V(ENT), IF(ne(B0.f('code_')), V(mk('kv', u(NS), engine.add(at(ENT, u(NS)), mk('int', 1))))))
    c.cmp.known = frozenset({ENT})
    c.text(z, spec, 'C20')
    c.require(a.op == 'nil', 'the counter starts as ' + show(a), 'C20', g.s.where(), not opaque(a))


NSS = elems(call('create_all_nested_namespaces', T_))
HEAD = """#include <map>
#include <algorithm>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>

#include <"""


@ob('C09 C23 C22', 'the root file declares and calls the function of every generated file once, in order, and creates the modules of all namespaces, parents first')
def root_file(c):
    g = gen(c)
    t = g.content(S(BASE, '.cpp'))
    if t is None: raise Missing('no root file is written')
    ps = engine.pieces(t)
    # what the single file mode puts in front and behind is checked with the files and lists
    k = [j for j, p in enumerate(ps) if p.op == 's' and 'PYBIND11_MODULE(' in p.a[0]]
    if len(k) != 1: raise Missing('no module definition')
    txt = ps[k[0]].a[0]
    ev = [e for e in g.s.E.events if e.kind == 'write' and not e.loops and any(p.op == 's' and 'PYBIND11_MODULE(' in p.a[0] for p in engine.pieces(e.args[1]))]
    if len(ev) != 1: raise Missing('the root file is not written in one piece')
    c.cond(only(g.t(ev[0].pc), g.keep), V(TRUE), 'C09', 'C09', 'the root module is written')
    t = g.t(ev[0].args[1])
    ps = engine.pieces(t)
    star_ = [p for p in ps if p.op == 'star']
    want = [per_file(g, S('void ', V(NAME), SUFFIX, ';\n')), FOR(NSS, lambda n: IF(ne(n), S('\t\t{"', n.base_namespace(), '", "', n.last_namespace(), '"},\n'))), per_file(g, S('\t', V(NAME), '(M);\n'))]
    consts = []
    for p in ps:
        if p.op == 's' and p.a[0] not in ('',): consts.append(p.a[0])
    if len(consts) < 5: raise Missing('the text of the root module was not recognised')
    fixed = FIXED(consts)
    c.text(t, S(TAG('C21', fixed[0], CONFIG.f('pybind11_include_file_'), fixed[1]), TAG('C09', want[0]), fixed[2], TAG('C22', ROOT), fixed[3], ROOT, fixed[4], TAG('C23', want[1]), fixed[5], TAG('C09', want[2]), fixed[6]), 'C23 C09')


def FIXED(found):
    import rootfile
    return rootfile.PARTS


def apart(t, a):
    """no occurrence of a spans two pieces of t"""
    edge = lambda x, k: x.op == 's' and x.a[0] and x.a[0][k] not in a
    ps = engine.pieces(t)
    for p in ps:
        if p.op == 'star':
            q = engine.pieces(p.a[2])
            if not q or not (edge(q[0], 0) or edge(q[-1], -1)) or not apart(p.a[2], a): return False
    # a repeated text ends or begins like its element
    end = lambda x, k: edge(engine.pieces(x.a[2])[k], k) if x.op == 'star' else edge(x, k)
    return all(end(x, -1) or end(y, 0) for x, y in zip(ps, ps[1:]))


def replaced(x):
    """replacing within a whole text is replacing within its pieces if they are kept apart"""
    if x.op == 'out' and x.a[0] == 'replace' and x.a[1] == 0: v = x.a[2]
    elif x.op == 'call' and x.a[0] == 'replace_': v = x.a[1]
    else: return x
    if len(v) != 3 or v[1].op != 's' or v[2].op != 's' or not v[1].a[0]: return x
    a, b = v[1].a[0], v[2].a[0]

    def go(t):
        r = []
        for p in engine.pieces(t):
            if p.op == 's': r.append(mk('s', p.a[0].replace(a, b)))
            elif p.op == 'star': r.append(star(p.a[0], p.a[1], go(p.a[2])))
            else: r.append(mk('call', 'replace_', (p, v[1], v[2])))
        return cat(*r)
    return go(v[0]) if apart(v[0], a) else mk('call', 'replace_', v)


@ob('C09 C23 C22', 'the list of sources names the root file and every generated file once, in order; the list of modules names every namespace once')
def lists(c):
    g = gen(c)
    single = O('O_single_file')
    t = g.content(S(BASE, '.sources'))
    if t is None: g.absent(c, S(BASE, '.sources'), 'no list of sources is written', 'C09')
    c.cmp.known = frozenset(x for y in (u(t),) for x in subterms(y) if x.op == 'lv')
    sources = lambda pre: S(pre, ROOT, '.cpp\n', per_file(g, S(pre, V(FILE), '.cpp\n')))
    c.text(t, IF(~single, sources('')), 'C09')
    t = g.content(S(BASE, '.modules'))
    if t is None: g.absent(c, S(BASE, '.modules'), 'no list of modules is written', 'C09 C23')
    modules = FOR(NSS, lambda n: S(call('replace_', n, '::', '.'), ' '))
    t = rewrite(t, replaced)
    c.text(t, IF(~single, modules), 'C23')
    t = g.content(S(BASE, '.cpp'))
    if t is None: raise Missing('no root file is written')
    t = rewrite(t, replaced)
    # behind the module definition
    ps = engine.pieces(t)
    k = [j for j, p in enumerate(ps) if p.op == 's' and p.a[0].endswith('\n}\n') and any(q.op == 's' and 'PYBIND11_MODULE(' in q.a[0] for q in ps[:j])]
    if not k: raise Missing('the end of the module definition was not found')
    c.text(cat(*ps[k[0] + 1:]), IF(single, S('\n// Source list file: ', BASE, '.sources\n', sources('// '), TAG('C23', '\n// Modules list file: ', BASE, '.modules\n// ', modules, '\n'))), 'C09 C22')


@ob('C10', 'the run ends with an error unless every file was opened, written and closed successfully')
def output_errors(c):
    g = gen(c)
    done = g.s.st.pc
    n = 0
    for e in g.s.E.events:
        if e.kind != 'open' or e.fn not in ('ofstream', 'fstream'): continue
        S_ = mk('stream', e.fn, e.args)
        n += 1
        w = '%s:%d' % (os.path.relpath(e.file, facts.REPO), e.line)
        bad = atom(mk('fail', mk('closed', S_)))
        written = any(x.kind == 'write' and x.args[0] is S_ for x in g.s.E.events)
        c.require(sat(done & e.pc & bad) is None or not written, 'generation goes on although writing %s failed' % show(e.args[0]), 'C10', w, not e.loops)
    c.require(n > 0 or any(e.fn == 'update_source_file' for e in g.s.E.events), 'no file is written', 'C10', g.s.where(), False)
