"""Text utilities the rest relies on: names taken apart, texts replaced and escaped, files written."""
import re
from check import *
from strfold import put, free
from functools import reduce
from inst import Inst

s1, s2, s3 = mk('p', 'string'), mk('p', 'string2'), mk('p', 'string3')
A, B_ = mk('sym', 'A'), free('B', ':')


def spelled(s, t, texts):
    """t for the given texts: its loops over their characters unrolled, and what then is known worked out"""
    m = {}
    for x, txt in texts.items():
        for R in {y for y in subterms(t) if y.op in ('range', 'p') and (y is x or rng_list(y) is x)} | {rng(x)}:
            t = Inst(s.E.loopinfo, R, len(txt)).go(t)
            m.update({mk('el', R, i): mk('chr', ord(k)) for i, k in enumerate(txt)})
        m[x] = mk('s', txt)
    return put(t, m)


def lit_of(x): return x.a[0] if isinstance(x, T) and x.op == 's' else None


@ob('C23 C03 C05 C07', 'the parent of a namespace is its name without the last component, and the last component what follows the last `::`')
def namespace_parts(c):
    for fn, i in (('base_namespace', 0), ('last_namespace', 1)):
        s = c.sum(fn, unstop=(fn,))
        words = [(mk('s', a), mk('s', b)) for a in ('a', 'ab', 'a::b', 'std::a::b', 'a::a::a') for b in ('a', 'b', 'abc', 'std')]
        for name, want in [(cat(A, mk('s', '::'), B_), (A, B_)), (B_, (EMPTY, B_)), (EMPTY, (EMPTY, EMPTY))] + [(cat(a, mk('s', '::'), b), (a, b)) for a, b in words] + [(b, (EMPTY, b)) for a, b in words]:
            got = put(s.v, {s1: name})
            c.cmp.known = frozenset({A, B_})
            c.text(got, V(want[i]), 'C23 C05 C03')


@ob('C05 C20', 'blanks at the ends of a name are removed and nothing else')
def trimmed(c):
    s = c.sum('trim', unstop=('trim',))
    M = mk('sym', 'M')
    c.cmp.known = frozenset({M})
    for l in ('', ' ', '\t', '  \t '):
        for r in ('', ' ', '\t', '\t \t'):
            c.text(put(s.v, {s1: cat(mk('s', l + 'x'), M, mk('s', 'y' + r))}), S('x', V(M), 'y'), 'C05 C20')
            c.text(put(s.v, {s1: mk('s', l + 'x' + r)}), S('x'), 'C05 C20')
            c.text(put(s.v, {s1: mk('s', l + r)}), S(''), 'C05 C20')


@ob('C03 C05 C11 C17 C21', 'begins_with and ends_with answer for exactly the prefix and the suffix given')
def prefix_suffix(c):
    s = c.sum('begins_with', unstop=('begins_with',))
    longer = ge0(mklin(-1, {size(s2): 1, size(s1): -1}))
    c.cond(s.v, prefix(s1, s2), 'C03 C05 C11 C21', what='begins_with', pc=~(prefix(s1, s2) & longer))
    s = c.sum('ends_with', unstop=('ends_with',))
    c.cond(s.v, suffix(s1, s2), 'C03 C05 C11', what='ends_with', pc=~(suffix(s1, s2) & longer))
    for fn, good in (('begins_with', str.startswith), ('ends_with', str.endswith)):
        s = c.sum(fn, unstop=(fn,))
        for x in ('', 'a', 'b', 'ab', 'aab', 'ba', 'class A', 'std::class A', 'A::class ', 'operator()', 'enum'):
            for y in ('a', 'ab', 'class ', 'class A', '()', 'enum '):
                b = spelled(s, s.v, {s1: x, s2: y})
                if isinstance(b, T) and b.op == 'b': b = b.a[0]
                if isinstance(b, T) and b.op == 'int': b = TRUE if b.a[0] else FALSE
                c.require(b is (TRUE if good(x, y) else FALSE), '%s(%r, %r) is %s' % (fn, x, y, show(b, 4) if isinstance(b, T) else b), 'C03 C05 C11', s.where(), sure=b is TRUE or b is FALSE)


def the_while(s, test):
    ws = [(W, x) for W, x in s.E.whiles.items() if any(y.op == 'sfind' for v in support(asb(x[0])) for y in subterms(atom_term(v)))]
    if len(ws) != 1: raise Missing('not one loop over the occurrences')
    return ws[0]


def occurrence(s, tags, c):
    """the loop over the occurrences of a text: (place found, text before, value after, next start)"""
    W, (more, lvs, exits) = the_while(s, None)[0], the_while(s, None)[1][:3]
    fs = {y for v in support(asb(more)) for y in subterms(atom_term(v)) if y.op == 'sfind'}
    if len(fs) != 1 or asb(more) is not ~engine.tob_atom(eq(fs.copy().pop(), mk('npos'))) and asb(more) is not ~asb(eq(fs.copy().pop(), mk('npos'))): raise Missing('the loop does not run as long as there is an occurrence')
    f = fs.pop()
    text, start = f.a[0], f.a[2]
    if text not in lvs or start not in lvs: raise Missing('the search does not go on from where it left off')
    return f, text, start, lvs, exits


@ob('C16 C11 C12', 'replacing a text replaces each occurrence once, from left to right, and goes on behind the replacement')
def replacing(c):
    s = c.sum('replace', unstop=('replace',))
    f, text, start, lvs, exits = occurrence(s, '', c)
    k, before, after = lvs[text]
    tags = 'C16 C11 C12'
    c.require(f.a[1] is s2, 'replace searches for %s' % show(f.a[1], 4), 'C11 C12', s.where(), sure=not opaque(f.a[1]))
    c.require(lvs[start][1] is mk('int', 0), 'replace does not start at the beginning', 'C11 C12', s.where(), sure=lvs[start][1].op in ('int', 'lin', 'size'))
    c.require(not exits, 'the loop over the occurrences is left early', 'C11 C12', s.where(), sure=False)
    want = mk('call', 'string::replace', (text, f, size(s2), s3))
    c.cmp.known = frozenset({text, start})
    c.text(tot(after), V(want), 'C11 C12')
    nxt = lvs[start][2]
    lin = nxt.op in ('lin', 'sfind', 'size', 'int') and not any(y.op == 'ite' for y in subterms(nxt))
    c.require(nxt is add(f, size(s3)), 'after a replacement the search goes on at %s and not behind the replacement' % show(nxt, 4), tags, s.where(), sure=lin)
    c.require(k[0] == 'O' and k[1] is s1, 'the result is not stored in the argument', 'C11 C12', s.where(), sure=False)
    s = c.sum('replace_', unstop=('replace_',))
    c.text(s.v, out('replace', 0, V(s1), V(s2), V(s3)), 'C11 C12')


def isal(x): return atom(mk('call', 'isalnum', (x,)))


@ob('C11 C16', '`_Bool` becomes `bool` exactly where it is a word of its own')
def boolean_types(c):
    s = c.sum('fix_boolean_types', unstop=('fix_boolean_types',))
    f, text, start, lvs, exits = occurrence(s, '', c)
    k, before, after = lvs[text]
    c.require(lit_of(f.a[1]) == '_Bool', 'not `_Bool` is replaced', 'C11', s.where(), sure=lit_of(f.a[1]) is not None)
    c.require(lvs[start][1] is mk('int', 0), 'the search does not start at the beginning', 'C11', s.where(), sure=lvs[start][1].op == 'int')
    c.require(not exits, 'the loop over the occurrences is left early', 'C11', s.where(), sure=False)
    ws = [x for x in subterms(tot(after)) if x.op == 'call' and x.a[0] == 'string::replace']
    want = mk('call', 'string::replace', (text, f, mk('int', 5), mk('s', 'bool')))
    c.require(all(w is want for w in ws), '`_Bool` is replaced by %s' % (ws and show(ws[0], 5)), 'C11', s.where(), sure=not any(opaque(w, frozenset({text, start})) for w in ws))
    done = asb(cond_of(after, text, want))

    def word(at_):      # at_: a character
        isc = [v for v in support(done) if any(y is at_ for y in subterms(atom_term(v)))]
        return isc
    l, r = engine.at(text, add(f, mk('int', -1))), engine.at(text, add(f, mk('int', 5)))
    first, last = asb(eq(f, mk('int', 0))), asb(eq(add(f, mk('int', 5)), size(text)))
    bad = lambda x: char_class(done, x)
    want_g = (first | ~word_char(l, done)) & (last | ~word_char(r, done))
    c.cmp.known = frozenset({text, start, f, l, r})
    c.cond(done, V(want_g), 'C11', what='an occurrence of `_Bool` is replaced')
    nxt = lvs[start][2]
    if nxt.op == 'lin' and not any(y.op == 'ite' for y in subterms(nxt)):
        cc, m = lin_of(nxt)
        c.require(m == {f: 1} and 1 <= cc <= 4, 'after an occurrence the search goes on at %s' % show(nxt, 4), 'C11 C16', s.where(), sure=m == {f: 1})


def char_class(b, x): return [v for v in support(b) if any(y is x for y in subterms(atom_term(v)))]


def word_char(x, done):
    """letter, digit or underscore"""
    al = [v for v in support(done) if atom_term(v).op == 'call' and atom_term(v).a[0] == 'isalnum' and any(y is x for y in subterms(atom_term(v)))]
    a = atom(atom_term(al[0])) if al else isal(x)
    return a | asb(eq(x, mk('chr', 95)))


def cond_of(after, old, new):
    """when `after` is new"""
    if after is new: return TRUE
    if after is old: return FALSE
    if isinstance(after, T) and after.op == 'ite': return (after.a[0] & cond_of(after.a[1], old, new)) | (~after.a[0] & cond_of(after.a[2], old, new))
    raise Missing('the text is changed in a different way')


def chain(t):
    """replacements of single characters one after the other: (innermost text, [(from, to)]), first replacement first"""
    ms = []
    while isinstance(t, T):
        if t.op == 'out' and t.a[0] == 'replace' and t.a[1] == 0: x, f, r = t.a[2]
        elif t.op == 'call' and t.a[0] == 'replace_' and len(t.a[1]) == 3: x, f, r = t.a[1]
        else: break
        if lit_of(f) is None or len(lit_of(f)) != 1 or lit_of(r) is None: break
        ms.append((lit_of(f), lit_of(r)))
        t = x
    return t, ms[::-1]


def image(ms, ch):
    """what becomes of a character"""
    t = ch
    for f, r in ms: t = t.replace(f, r)
    return t


@ob('C12', 'documentation is the comment attached to the declaration, escaped such that the string literal denotes the same text')
def documentation(c):
    fn = 'generate_documentation_string_for_declaration'
    s = c.sum(fn, unstop=(fn,), stop=('get_text',))
    comment = V(mk('call', 'getLocalCommentForDeclUncached', (mk('call', 'getASTContext', (mk('p', 'Decl'),)), mk('p', 'Decl'))))
    cm = [x for x in subterms(s.v) if x.op == 'call' and x.a[0].startswith('getLocalCommentForDecl') or isinstance(x, T) and x.op == 'call' and x.a[0] in ('getCommentForDecl', 'getRawCommentForAnyRedecl')]
    if not cm: raise Missing('no comment')
    c.require(all(x is u(comment) for x in cm), 'the documentation is that of %s' % show(cm[0], 5), 'C12', s.where(), sure=not any(opaque(x) for x in cm) and all(x.a[0] == 'getLocalCommentForDeclUncached' for x in cm))
    has_c = cond(nn(comment))
    tops = alternatives(s.v)
    n = 0
    for g, t in tops:
        if (g & has_c) is FALSE:
            c.text(t, S(''), 'C12')
            continue
        base, ms = chain(t)
        if base is EMPTY or base is t and not ms and not any(x.op == 'call' and x.a[0] == 'get_text' for x in subterms(t)): continue
        n += 1
        texts = [x for x in subterms(base) if x.op == 'call' and x.a[0] == 'get_text']
        clean = base.op in ('call', 'ite') and not any(x.op in ('out',) for x in subterms(base))
        for i in range(1, 128):
            ch = chr(i)
            want = {'\\': ('\\\\',), '"': ('\\"',), '\n': ('\\n',), '\t': ('\t', '\\t'), '\r': ('\r', '\\r'), '?': ('?', '\\?'), "'": ("'", "\\'")}.get(ch, (ch,))
            c.require(image(ms, ch) in want, 'in documentation %r becomes %r' % (ch, image(ms, ch)), 'C12', s.where(), sure=bool(texts) and clean)
        c.require(bool(texts) and all(x.a[1][0] is u(comment) for x in texts), 'the documentation is not the text of the comment', 'C12', s.where(), sure=bool(texts) and not opaque(texts[0].a[1][0]))
    # the literal written denotes the comment without the blanks in front of it
    for txt in ('a', 'A text.', '\n a "b" c\n', 'x\\y', '\\"', 'n\n\nm', ' "', 'tail \\'):
        for g, t in tops:
            ts = {x for x in subterms(t) if x.op == 'call' and x.a[0] == 'get_text'}
            if (g & has_c) is FALSE or not ts: continue
            t = spelled(s, t, {x: txt for x in ts})
            got = lits(t)
            if got is None: c.require(False, 'the documentation for %r is %s' % (txt, show(t, 4)), 'C12', s.where(), sure=False)
            else: c.require((unescaped(got) or '').lstrip(' \n') == txt.lstrip(' \n') and unescaped(got) is not None, 'a comment %r becomes "%s"' % (txt, got), 'C12', s.where())
    if not n: raise Missing('no escaped text')
    # what is removed at the beginning
    for x in set(subterms(s.v)):
        if x.op == 'firstidx':
            for i in range(33, 127):
                b = put(asb(x.a[2]), {elem(x.a[0], x.a[1]): mk('chr', i)})
                c.require(b is TRUE, '%r is removed from the beginning of documentation' % chr(i), 'C12', s.where(), sure=b is FALSE)
        if x.op == 'call' and x.a[0] == 'find_first_not_of' and lit_of(x.a[1][1]) is not None:
            c.require(not lit_of(x.a[1][1]).strip(), '%r is removed from the beginning of documentation' % lit_of(x.a[1][1]), 'C12', s.where())
        if x.op == 'call' and x.a[0] == 'substr' and x.a[1][0].op == 'call' and x.a[1][0].a[0] == 'get_text':
            t, a, n = x.a[1]
            c.require(n.op == 'npos', 'documentation is cut off', 'C12', s.where(), sure=n.op in ('int', 'lin'))
            for g, y in alternatives(a):
                if y.op == 'lin': c.require(False, 'documentation starts at %s' % show(y, 4), 'C12', s.where(), sure=any(z.op in ('firstidx', 'call') for z in lin_of(y)[1]) and not any(z.op == 'ite' for z in subterms(y)))


def unescaped(t):
    """the text a string literal denotes, or None"""
    if '"' in re.sub(r'\\.', '', t, flags=re.S) or '\n' in t or re.sub(r'\\.', '', t, flags=re.S).endswith('\\'): return None
    return re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t'}.get(m.group(1), m.group(1)), t)


def alternatives(t, g=TRUE):
    if isinstance(t, T) and t.op == 'ite':
        return [y for cc, x in ((g & t.a[0], t.a[1]), (g & ~t.a[0], t.a[2])) if cc is not FALSE for y in alternatives(x, cc)]
    return [(g, t)]


@ob('C12', 'the text of a comment is the text of all its parts in order, a line break where the source has one')
def comment_text(c):
    s = c.sum('get_text', stop=('get_text',))
    C = P('Comment')
    r = R('child', C) if False else None
    rs = {x for x in subterms(s.v) if x.op == 'star'}
    if len(rs) != 1: raise Missing('not one loop over the parts')
    r = rs.pop().a[0]
    if r.op == 'range' and r.a[1] is not u(C): raise Missing('parts of something else')
    prev = [x for x in subterms(s.v) if x.op == 'lv' or x.op == 'carried']
    if len(prev) != 1: raise Missing('no place of the part before')
    prev = V(prev[0])
    SM = P('SourceManager')
    line = lambda x: call('getSpellingLineNumber', SM, x, V(NULL))
    b = each(r).getBeginLoc()
    new = ~(line(b) == line(prev))
    c.cmp.known = frozenset({u(prev)})
    c.text(s.v, IF(isa('TextComment', C), C.getText(), S(IF(isa('ParagraphComment', C), '\n'), FOR(r, S(IF(new, '\n'), call('get_text', each(r), SM, IF(new, b, prev)))))), 'C12')


@ob('C22 C12 C08', 'source location annotations: the line of the declaration, or nothing if suppressed, with its name and header')
def annotations(c):
    D = P('NamedDecl')
    s = c.sum('line_number', unstop=('line_number',))
    sm = call('getSourceManager', call('getASTContext', D))
    c.text(s.v, IF(nn(CONFIG.f('skip_line_number')), '', tostr(call('getSpellingLineNumber', sm, D.getLocation(), V(NULL)))), 'C22 C12')
    s = c.sum('generate_comment_for_declaration', unstop=('generate_comment_for_declaration',))
    inc = call('relevant_include', D)
    c.text(s.v, S('// ', call('standard_name', D.getQualifiedNameAsString()), ' file:', IF(ne(inc), substr(inc, 1, minus(num(inc), 2))), ' line:', call('line_number', D), '\n'), 'C12 C22')
    for a in ('a.hpp', 'b/c.h', 'x'):
        m = {u(inc): mk('s', '<' + a + '>')}
        got, want = put(s.v, m), S('// ', call('standard_name', D.getQualifiedNameAsString()), ' file:', a, ' line:', call('line_number', D), '\n')
        c.text(got, want, 'C12 C22')


@ob('C23 C11 C03 C05', 'the namespace of a declaration is its qualified name without its own name')
def namespace_of(c):
    s = c.sum('namespace_from_named_decl', unstop=('namespace_from_named_decl',))
    D = P('NamedDecl')
    N = mk('sym', 'N')
    q, n = u(call('standard_name', D.getQualifiedNameAsString())), u(D.getNameAsString())
    if not any(x is q for x in subterms(s.v)): raise Missing('the qualified name is not used')
    c.cmp.known = frozenset({A, N})
    ns = cat(mk('s', 'n'), A)
    c.text(put(s.v, {q: cat(ns, mk('s', '::'), N), n: N}), V(ns), 'C23 C05 C03')
    c.text(put(s.v, {q: N, n: N}), S(''), 'C23 C05 C03')
    for a in ('', 'a', 'std', 'a::b', 'abc::de'):
        for b in ('x', 'ab', 'operator()'):
            got = put(s.v, {q: mk('s', (a + '::' if a else '') + b), n: mk('s', b)})
            c.require(lits(got) == a, 'the namespace of %s in %r is %s' % (b, a, show(got, 4)), 'C23 C05 C03', s.where(), sure=lits(got) is not None)
    s = c.sum('typename_from_type_decl', unstop=('typename_from_type_decl',))
    c.text(s.v, call('standard_name', P('TypeDecl').getTypeForDecl().getCanonicalTypeInternal().getAsString()), 'C11 C18')


@ob('C11', 'template arguments are written as C++ with the type of a value')
def argument_text(c):
    s = c.sum('template_argument_to_string', unstop=('template_argument_to_string',))
    ps = [x for x in subterms(s.v) if x.op == 'out' and x.a[0] == 'print']
    if len(ps) != 1: raise Missing('not printed once')
    p = ps[0]
    c.text(s.v, V(p), 'C11')
    a = p.a[2]
    c.require(a[0] is mk('p', 'TemplateArgument'), 'another argument is printed', 'C11', s.where(), sure=not opaque(a[0]))
    cpp = [x for x in subterms(a[1]) if x.op == 'upd']
    c.require(any(x.a[1] == 'CPlusPlus' and tot(x.a[2]) is mk('b', TRUE) for x in cpp), 'the argument is not printed as C++', 'C11', s.where(), sure=not opaque(a[1]))
    c.require(a[2] is mk('b', TRUE), 'the type of an integral argument is not printed', 'C11', s.where(), sure=not opaque(a[2]))


@ob('C11', 'a Python name derives from every character of the C++ name and is an identifier: separators become one underscore, what is no part of a word its code, names of specializations are marked')
def python_name(c):
    s = c.sum('mangle_type_name', unstop=('mangle_type_name',))
    mark = cond(P('bool'))
    for name, want, marked in (('a', 'a', 'a'), ('a_b', 'a_b', 'a_b'), ('std::vector<int>', 'std_vector_int_', 'std_vector_int_t'), ('A<B *, const C &>', 'A_B_*_const_C_&_', 'A_B__star__const_C__ref__t'),
                               ('A<-1>', 'A__x2D_1_', 'A__x2D_1_t'), ('A *', 'A_*', 'A_*'), ('unsigned int', 'unsigned_int', 'unsigned_int'), ('::a', '_a', '_a'), ('A<b::c<D> >', 'A_b_c_D_', 'A_b_c_D_t'),
                               ('B<\xc3\xa4>', 'B_\xc3\xa4_', 'B_\xc3\xa4_t'), ('\xc3\xa4', '\xc3\xa4', '\xc3\xa4')):
        both = spelled(s, s.v, {s1: name})
        for m, w in ((FALSE, want), (TRUE, marked)):
            got = put(both, {mk('p', 'bool'): m})
            gl = lits(got)
            c.require(gl == w, 'the Python name of %s%s is %s' % (name, ', marked,' if m is TRUE else '', show(got, 4)), 'C11', s.where(), sure=gl is not None)
    fs = {x for x in subterms(s.v) if x.op == 'fold'}
    if len(fs) != 1: raise Missing('not one loop over the characters')
    F = fs.pop()
    ch = elem(F.a[0], F.a[1])
    lv = [x for x in subterms(F.a[2]) if x.op == 'lv']
    if len(set(lv)) != 1 or F.a[0] is not s1 and F.a[0] is not rng(s1): raise Missing('not one text made from the characters of the name')
    lv = lv[0]
    c.require(F.a[3] is EMPTY, 'the Python name starts with %s' % show(F.a[3], 4), 'C11', s.where(), sure=not opaque(F.a[3]))
    exs = {x for x in subterms(s.v) if x.op == 'ex'}
    if len(exs) != 1: raise Missing('not one condition for a specialization')
    tmpl = exs.pop()
    prev = free('prev', '_')
    PREVS = ((EMPTY, True), (mk('s', 'x'), True), (mk('s', 'x_'), False))
    for i in range(32, 127):
        k = chr(i)
        for p, sep in PREVS:
            got = put(F.a[2], {ch: mk('chr', i), lv: p})
            want = cat(p, mk('s', ('_' if sep else '') if k in ' <>,:' else k if k.isalnum() or k in '_*&' else '_x%X_' % i))
            gl = lits(got)
            c.require(gl == lits(want), 'in a Python name %r after %s becomes %s' % (k, show(p, 3), show(got, 4)), 'C11', s.where(), sure=gl is not None)
        b = put(asb(tmpl.a[2]), {ch: mk('chr', i)})
        c.require(b is (TRUE if k in '<>,' else FALSE), '%r %s a specialization' % (k, 'does not mark' if k in '<>,' else 'marks'), 'C11', s.where(), sure=b in (TRUE, FALSE))
    t = atom(tmpl)
    for g, x in alternatives(s.v):
        if (g & mark & t) is FALSE: c.text(x, V(F), 'C11', pc=V(g))
        else:
            c.require((g & ~(mark & t)) is FALSE, 'a name that is no specialization is marked', 'C11', s.where(), sure=not any(opaque(atom_term(v), frozenset({tmpl})) for v in support(g)))
            ps = engine.pieces(x)
            tail = ''.join(lit_of(p) or '' for p in ps[1:])
            c.require(len(ps) == 2 and tail == 't', 'the name of a specialization does not end in t', 'C11', s.where(), sure=all(lit_of(p) is not None for p in ps[1:]))
            b, ms = chain(ps[0])
            for i in range(32, 127):
                k = chr(i)
                if not k.isalnum() and k not in '_*&': continue
                w = {'*': '_star_', '&': '_ref_'}.get(k, k)
                c.require(image(ms, k) == w, 'in the name of a specialization %r becomes %r' % (k, image(ms, k)), 'C11', s.where(), sure=b is F)
            c.require(b is F, 'the name of a specialization is made from something else', 'C11', s.where(), sure=False)


def lits(t):
    if not isinstance(t, T): return None
    out = ''
    for p in engine.pieces(t):
        if p.op == 's': out += p.a[0]
        elif p.op in ('chr', 'int'): out += chr(p.a[0])
        else: return None
    return out


@ob('C10 C11', 'a text is taken apart at every separator and nothing of it is lost')
def splitting(c):
    s = c.sum('split', unstop=('split',))
    for sep, texts in (('/', ('a', 'a/b', 'ab/cd/e.cpp', '/a/b', 'x/', '')), ('\n', ('a', 'a\n b\n', 'a\n\n{\tb; // c/d\n}\n'))):
        for t in texts:
            got = [x for x in engine.pieces(spelled(s, s.v, {s1: t, s2: sep}))]
            parts = [lits(x.a[0]) if x.op == 'item' else None for x in got]
            c.require([x for x in parts if x != ''] == [x for x in t.split(sep) if x], '%r is taken apart into %s' % (t, parts), 'C10 C11', s.where(), sure=None not in parts)


@ob('C12 C11 C13', 'indenting puts the indentation before every line that is not empty and keeps every line')
def indenting(c):
    s = c.sum('indent', unstop=('indent',), stop=('split',))
    l = elems(call('split', V(s1), '\n'))
    c.text(s.v, FOR(l, S(IF(ne(each(l)), V(s2)), each(l), '\n')), 'C11 C12')


@ob('C10 C08', 'a generated file is written below the prefix, exactly when its content changes, completely, and every failure is an error')
def updated_files(c):
    s = c.sum('update_source_file', unstop=('update_source_file',), stop=('split',))
    path = cat(s1, mk('s', '/'), s2)
    known = frozenset()
    ev = s.E.events
    outs = [e for e in ev if e.kind == 'open' and 'ofstream' in e.fn or e.kind == 'open' and e.fn == 'fstream']
    if not outs: raise Missing('no file is opened for writing')
    reads = {}
    for e in outs:
        c.require(e.args and e.args[0] is path, 'the file written is %s' % (e.args and show(e.args[0], 6)), 'C10', s.where(), sure=bool(e.args) and not opaque(e.args[0]))
        c.require(len(e.args) < 2, 'the file is opened in another mode', 'C10', s.where(), sure=False)
    opened = reduce(lambda a, e: a | e.pc, outs, FALSE)
    ws = [e for e in ev if e.kind == 'write']
    for e in ws: c.require(len(e.args) == 2 and e.args[1] is s3, 'what is written is %s' % show(e.args[-1], 6), 'C10', s.where(), sure=not opaque(e.args[-1]))
    if not ws: raise Missing('nothing is written')
    streams = {e.args[0] for e in ws}
    # written when opened, unless opening failed
    written = reduce(lambda a, e: a | e.pc, ws, FALSE)
    rest = opened & ~written
    for v in support(rest):
        t = atom_term(v)
        if t.op == 'fail': rest = cofactor(rest, v, False)
    c.require(rest is FALSE, 'the content is not written although the file could be opened', 'C10', s.where(), sure=not any(opaque(atom_term(v)) for v in support(rest)))
    # exactly when it differs
    same = [v for v in support(opened) if atom_term(v).op == 'eq' and s3 in atom_term(v).a]
    from_file = [v for v in support(opened) if any(y.op in ('stream', 'ifstream') or y.op == 'call' and y.a[0] in ('getFile', 'getFileAsStream') for y in subterms(atom_term(v)))]
    if len(same) == 1:
        other = [y for y in atom_term(same[0]).a if y is not s3]
        src = [y for y in subterms(other[0]) if y.op == 'stream'] if other else []
        for y in src: c.require(y.a[1] and y.a[1][0] is path, 'the content is compared with that of %s' % (y.a[1] and show(y.a[1][0], 6)), 'C10', s.where(), sure=not opaque(y.a[1][0]) if y.a[1] else False)
        if src:
            c.require(cofactor(opened, same[0], True) is FALSE, 'a file is written although its content is the same', 'C10', s.where(), sure=not any(opaque(atom_term(v)) for v in support(cofactor(opened, same[0], True))))
            b = cofactor(opened, same[0], False)
            left = [v for v in support(b) if not (atom_term(v).op in ('fail', 'bad') or any(y.op == 'call' and y.a[0] == 'create_directories' for y in subterms(atom_term(v))))]
            for v in left: c.require(False, 'whether a changed file is written depends on %s' % show(atom_term(v), 6), 'C10 C22', s.where(), sure=not opaque(atom_term(v)))
            c.require(left or b is not FALSE, 'a changed file is not written', 'C10', s.where())
    elif from_file and not same:
        kinds = set()
        for v in from_file:
            t = atom_term(v)
            if t.op in ('fail', 'bad'): continue
            if t.op in ('prefix', 'suffix', 'substr?'): kinds.add(t.op)
            elif any(y.op == 'size' and any(z.op == 'stream' for z in subterms(y)) for y in subterms(t)) and t.op in ('ge0', 'eq0', 'eq'): kinds.add('size')
            else: kinds.add('other')
        c.require(kinds, 'whether a file is written depends only on whether there is one', 'C10', s.where(), sure=all(v in from_file or any(y.op == 'call' and y.a[0] == 'create_directories' for y in subterms(atom_term(v))) for v in support(opened)))
        c.require(kinds not in ({'prefix'}, {'suffix'}, {'substr?'}, {'size'}), 'the contents are not compared in full (%s)' % ', '.join(kinds), 'C10', s.where())
    elif not from_file and not s.E.opaque:
        c.require(False, 'whether the content changes is not looked at before a file is written', 'C10', s.where(), sure=not any(opaque(atom_term(v)) for v in support(opened)))
    # failures
    end = s.st.pc
    dirs = [e for e in ev if e.fn == 'create_directories']
    if not dirs: raise Missing('directories are not created')
    l = elems(V(mk('call', 'pop_back', (u(call('split', V(s2), '/')),))))
    for e in dirs: c.text(e.args[0], S(V(s1), FOR(l, S('/', each(l)))), 'C10')
    dv = [v for v in support(end) if any(y.op == 'call' and y.a[0] == 'create_directories' for y in subterms(atom_term(v)))]
    fails = [v for v in support(end) if atom_term(v).op == 'fail']
    bad_dir = None
    for e in ev:
        if e.kind == 'throw' or e.fn in ('throw', 'exit', 'abort'): pass
    if len(dv) == 1:
        a, b = cofactor(end, dv[0], True), cofactor(end, dv[0], False)
        c.require(a is FALSE or b is FALSE, 'a directory that cannot be created is no error', 'C10', s.where(), sure=True)
    elif not dv: c.require(False, 'whether the directory could be created is not looked at', 'C10', s.where(), sure=not s.E.opaque)
    for st in streams:
        at_open = atom(mk('fail', st))
        ops = {e.kind for e in ev if e.kind in ('close', 'flush') and e.args and e.args[0] is st}
        later = [t for t in (mk('fail', mk('closed', st)), mk('fail', mk('written', st)), mk('fail', mk('flushed', st))) if any(atom_term(v) is t for v in support(end))]
        reach = end & opened
        # every way to the end with the file opened passes a test of the stream after the writing
        bad = [t for t in later if sat(reach & atom(t)) is not None and (reach & atom(t)) is not FALSE]
        c.require(any(atom_term(v) is mk('fail', st) for v in support(end)) or later, 'whether the file could be opened is not looked at', 'C10', s.where(), sure=not s.E.opaque)
        c.require((reach & at_open) is FALSE or bool(later), 'a file that cannot be opened is no error', 'C10', s.where(), sure=not s.E.opaque)
        c.require(any((reach & atom(t)) is FALSE for t in later), 'a file that cannot be written completely is no error', 'C10', s.where(), sure=not s.E.opaque)
