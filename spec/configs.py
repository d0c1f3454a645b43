"""Configuration: what each directive of a configuration file does, and what the queries answer."""
from check import *
from strfold import put, free

T_ = THIS('Config')
KEY, VALUE = mk('sym', 'KEY'), mk('sym', 'VALUE')
N = mk('sym', 'NAME')
X = mk('s', 'x')
NAME = cat(N, X)                                                   # any name that does not end in a carriage return
TIGHT = cat(mk('call', 'remove_all', (N, mk('chr', 32))), X)       # the same without spaces

LIST, SET, TEXT, PAIR, TPAIR, MULTI = 'list set text pair tpair multi'.split()
# directive, sign, member, kind, properties that break when it is not so
DIRECTIVES = [
    ('namespace', '+', 'namespaces_to_bind', LIST, 'C05 C04'), ('namespace', '-', 'namespaces_to_skip', LIST, 'C05 C03'),
    ('class', '+', 'classes_to_bind', LIST, 'C05 C04'), ('class', '-', 'classes_to_skip', LIST, 'C05 C03'),
    ('enum', '+', 'enums_to_bind', LIST, 'C05 C04'), ('enum', '-', 'enums_to_skip', LIST, 'C05 C03'),
    ('function', '+', 'functions_to_bind', LIST, 'C05 C04'), ('function', '-', 'functions_to_skip', LIST, 'C05 C03'),
    ('field', '-', 'fields_to_skip', LIST, 'C05 C03'),
    ('python_builtin', '+', 'python_builtins', SET, 'C05'), ('python_builtin', '-', 'not_python_builtins', SET, 'C05'),
    ('include', '+', 'includes_to_add', LIST, 'C05 C21'), ('include', '-', 'includes_to_skip', LIST, 'C05 C21'),
    ('include_for_class', '+', 'class_includes_', MULTI, 'C05 C21'), ('include_for_namespace', '+', 'namespace_includes_', MULTI, 'C05 C21'),
    ('buffer_protocol', '+', 'buffer_protocols', LIST, 'C05'),
    ('module_local_namespace', '+', 'module_local_namespaces_to_add', LIST, 'C05'), ('module_local_namespace', '-', 'module_local_namespaces_to_skip', LIST, 'C05'),
    ('binder', '+', 'binders_', TPAIR, 'C05 C20'), ('add_on_binder', '+', 'add_on_binders_', TPAIR, 'C05 C20'),
    ('binder_for_namespace', '+', 'binder_for_namespaces_', TPAIR, 'C05 C20'), ('add_on_binder_for_namespace', '+', 'add_on_binder_for_namespaces_', TPAIR, 'C05 C20'),
    ('custom_shared', '+', 'holder_type_', TEXT, 'C05 C14'), ('smart_holder', '+', 'smart_held_classes', LIST, 'C05 C14'),
    ('pybind11_include_file', '+', 'pybind11_include_file_', TEXT, 'C05'),
    ('default_static_pointer_return_value_policy', '+', 'default_static_pointer_return_value_policy_', TEXT, 'C05 C06'),
    ('default_static_lvalue_reference_return_value_policy', '+', 'default_static_lvalue_reference_return_value_policy_', TEXT, 'C05 C06'),
    ('default_static_rvalue_reference_return_value_policy', '+', 'default_static_rvalue_reference_return_value_policy_', TEXT, 'C05 C06'),
    ('default_member_pointer_return_value_policy', '+', 'default_member_pointer_return_value_policy_', TEXT, 'C05 C06'),
    ('default_member_lvalue_reference_return_value_policy', '+', 'default_member_lvalue_reference_return_value_policy_', TEXT, 'C05 C06'),
    ('default_member_rvalue_reference_return_value_policy', '+', 'default_member_rvalue_reference_return_value_policy_', TEXT, 'C05 C06'),
    ('default_call_guard', '+', 'default_call_guard_', TEXT, 'C05 C06'), ('prefix_for_static_member_functions', '+', 'prefix_for_static_member_functions_', TEXT, 'C05 C17'),
    ('trampoline_member_function_binder', '+', 'custom_trampoline_functions_', PAIR, 'C05 C13'),
]
MEMBERS = {}
for d in DIRECTIVES: MEMBERS.setdefault(d[2], d[4])


# lines with the other sign, which take nothing back and add nothing
IDLE = [('field', '+', 'C05 C03'), ('buffer_protocol', '-', 'C05'), ('binder', '-', 'C05 C20'), ('add_on_binder', '-', 'C05 C20'), ('binder_for_namespace', '-', 'C05 C20'),
        ('add_on_binder_for_namespace', '-', 'C05 C20'), ('smart_holder', '-', 'C05 C14'), ('trampoline_member_function_binder', '-', 'C05 C13')]
WRONG = [('include_for_class', '-'), ('include_for_namespace', '-')]


class Read:
    """the reading of one line"""

    def __init__(self, c):
        self.s = s = c.sum('Config::read', stop=('split_in_two', 'trim'))
        ws = [(W, x) for W, x in s.E.whiles.items() if any(y.op in ('getline',) or y.op == 'call' and y.a[0] == 'getline' for v in support(asb(x[0])) for y in subterms(atom_term(v)))]
        if len(ws) != 1: raise Missing('not one loop over the lines of a configuration file')
        self.W, (self.more, self.lvs, self.exits) = ws[0][0], ws[0][1][:3]
        if self.exits: raise Missing('the loop over the lines is left in between')
        ls = {x for e in s.E.events for x in subterms(e.pc) if x.op == 'line'}
        if len(ls) != 1: raise Missing('no line')
        self.line = ls.pop()
        self.member = {k[2].lstrip('.'): (lv, after) for lv, (k, before, after) in self.lvs.items() if k[0] == 'O' and k[1].op == 'this' and len(k) > 2}
        self.throws = FALSE
        for e in s.E.events:
            if e.fn in ('throw', 'exit', 'abort') and e.loops: self.throws = self.throws | e.pc

    def error(self, text):
        """whether reading this line is an error"""
        p = put(self.throws, {self.line: text})
        # given that there is a line
        for v in support(p):
            t = atom_term(v)
            if t.op in ('fail', 'bad') : p = cofactor(p, v, False)
        return p


@ob('C05 C03 C04 C06 C20 C21 C14 C13 C17', 'every line of a configuration file changes the member of the configuration its directive and sign stand for, adding or setting the name given, and nothing else')
def directives(c):
    R = Read(c)
    s = R.s
    for name, tags in MEMBERS.items():
        if name not in R.member:
            unchanged = s.field(name) is fld(u(T_), name)
            if not unchanged: raise Missing('%s is not set line by line' % name)
    for d, sign, member, kind, tags in DIRECTIVES + [(d, sign, None, None, tags) for d, sign, tags in IDLE]:
        for end in ('', '\r'):
            line = cat(mk('s', sign + d + ' '), NAME, mk('s', end))
            for m in MEMBERS:
                if m not in R.member:
                    if m == member: c.require(False, '%s%s changes nothing: %s is never set' % (sign, d, m), tags, s.where())
                    continue
                lv, after = R.member[m]
                c.cmp.known = frozenset({lv, mk('call', 'remove_all', (N, mk('chr', 32)))})
                got = put(after, {R.line: line})
                want = lv
                parts = None
                if m == member:
                    if kind in (PAIR, TPAIR, MULTI):
                        ss = {x for x in subterms(got) if x.op == 'call' and x.a[0] == 'split_in_two' and x.a[1] and x.a[1][0] is NAME}
                        if not ss and got is not lv: raise Missing('%s is not split in two' % d)
                        sp = ss.pop() if ss else mk('call', 'split_in_two', (NAME,))
                        k, v = tget(sp, 0), tget(sp, 1)
                        if kind == TPAIR: v = mk('call', 'trim', (v,))
                        want = cat(lv, mk('kv', k, v if kind != MULTI else cat(engine.at(lv, k), mk('item', v))))
                        if kind == PAIR and any(x.op == 'call' and x.a[0] == 'trim' for x in subterms(got)): want = cat(lv, mk('kv', k, mk('call', 'trim', (v,))))
                    elif kind == TEXT: want = TIGHT
                    else: want = cat(lv, mk('item', TIGHT))
                if got is not want: c.text(got, V(want), tags if m == member else MEMBERS[m] + ' ' + tags)
                else: c.checked += 1


@ob('C05 C10', 'an unreadable file, a line without sign, a line without a name and an unknown directive are errors; comments, empty lines and known directives are not')
def config_errors(c):
    R = Read(c)
    s = R.s
    op = [e for e in s.E.events if e.kind == 'open' or e.fn in ('ifstream', 'fstream') or e.fn == 'open']
    if len(op) != 1: raise Missing('the configuration file is not opened once')
    opened = FALSE
    for e in s.E.events:
        if e.fn in ('throw', 'exit', 'abort') and not e.loops: opened = opened | e.pc
    for v in support(s.st.pc):
        t = atom_term(v)
        if t.op == 'fail' and t.a[0].op == 'stream':
            c.require(cofactor(s.st.pc, v, True) is FALSE, 'a configuration file that cannot be opened is ignored', 'C05 C10', s.where())
            break
    else: c.require(False, 'whether the configuration file can be opened is not looked at', 'C05 C10', s.where(), sure=not s.E.opaque)

    def expect(text, err, what, opaque_ok=False):
        p = R.error(text)
        c.require(p is (TRUE if err else FALSE), '%s is %s' % (what, 'not an error' if err else 'an error'), 'C05 C10' if err else 'C05', s.where(), sure=p in (TRUE, FALSE))
        if not err and p is FALSE and text is not None:
            pass
    for d, sign, member, kind, tags in DIRECTIVES:
        expect(cat(mk('s', sign + d + ' '), NAME), False, 'the directive %s%s' % (sign, d))
        expect(cat(mk('s', sign + d + ' '), NAME, mk('s', '\r')), False, 'the directive %s%s in a file with CR LF line endings' % (sign, d))
    for d, sign, tags in IDLE: expect(cat(mk('s', sign + d + ' '), NAME), False, 'the directive %s%s' % (sign, d))
    for d, sign in WRONG: expect(cat(mk('s', sign + d + ' '), NAME), True, 'the directive %s%s' % (sign, d))
    for t, what in (('', 'an empty line'), ('\r', 'an empty line that ends in CR LF'), ('#', 'an empty comment')): expect(mk('s', t), False, what)
    expect(cat(mk('s', '#'), NAME), False, 'a comment')
    for l in 'anfcz*: \t"0':
        for d in ('class', 'function', 'namespace'): expect(cat(mk('s', l + d + ' '), NAME), True, 'a line that starts with %r' % l)
    for d in sorted({d[0] for d in DIRECTIVES}):
        expect(mk('s', '+' + d), True, 'the directive %s without a name' % d)
        expect(mk('s', '-' + d), True, 'the directive %s without a name' % d)
        expect(cat(mk('s', d + ' '), NAME), True, 'the directive %s without a sign' % d)
        for x in (d + 's', d[:-1], d.upper(), 'x' + d, d.replace('_', '-', 1) if '_' in d else d + '_'):
            if x not in {y[0] for y in DIRECTIVES}:
                expect(cat(mk('s', '+' + x + ' '), NAME), True, 'the unknown directive +' + x)
                expect(cat(mk('s', '-' + x + ' '), NAME), True, 'the unknown directive -' + x)
    for x in ('', 'no_such_directive'):
        for sign in '+-': expect(cat(mk('s', sign + x + ' '), NAME), True, 'the unknown directive %s%s' % (sign, x))
    for lv, (k, before, after) in R.lvs.items():
        if k[0] != 'O' or k[1].op != 'this': continue
        for t, what in ((mk('s', ''), 'an empty line'), (mk('s', '\r'), 'an empty line'), (cat(mk('s', '#'), NAME), 'a comment')):
            got = put(after, {R.line: t})
            c.require(got is lv, '%s changes the configuration (%s)' % (what, k[2]), 'C05', s.where(), sure=False)


name = P('string')
TIGHTP = V(mk('call', 'remove_all', (mk('p', 'string'), mk('chr', 32))))
QUERIES = [  # query, list, properties if it holds too often, too rarely
    ('is_function_binding_requested', 'functions_to_bind', 'C05', 'C05 C04'), ('is_function_skipping_requested', 'functions_to_skip', 'C05 C04', 'C05 C03'),
    ('is_class_binding_requested', 'classes_to_bind', 'C05', 'C05 C04'), ('is_class_skipping_requested', 'classes_to_skip', 'C05 C04', 'C05 C03'),
    ('is_enum_binding_requested', 'enums_to_bind', 'C05', 'C05 C04'), ('is_enum_skipping_requested', 'enums_to_skip', 'C05 C04', 'C05 C03'),
    ('is_field_skipping_requested', 'fields_to_skip', 'C05 C04', 'C05 C03'), ('is_buffer_protocol_requested', 'buffer_protocols', 'C05', 'C05'),
    ('is_smart_holder_requested', 'smart_held_classes', 'C05 C14', 'C05 C14')]


@ob('C05 C03 C04 C14', 'an entity is named by a directive when its name, without spaces, is in the list of that directive')
def named_entities(c):
    c.cmp.known = frozenset({u(TIGHTP)})
    for q, l, over, under in QUERIES:
        s = c.sum('Config::' + q)
        c.cond(s.v, has_(T_.f(l), TIGHTP), over, under, '%s for a name' % q)
        c.require(s.st.pc is TRUE, '%s can end in an error' % q, under, s.where(), sure=not opaque_cond(s.st.pc, c.cmp.known))


def opaque_cond(b, known=frozenset()): return any(opaque(atom_term(v), known) for v in support(b))


@ob('C05', 'module-local classes: all namespaces except those excluded, or those named; naming and excluding the same namespace is an error')
def module_local(c):
    s = c.sum('Config::is_module_local_requested')
    add, skip = T_.f('module_local_namespaces_to_add'), T_.f('module_local_namespaces_to_skip')
    everything, named, excluded = has_(add, '@all_namespaces'), has_(add, name), has_(skip, name)
    clash = named & excluded & ~everything
    c.cond(s.st.pc, ~clash, 'C05', what='the query for module_local ends normally')
    c.cond(s.v, IFB(everything, ~excluded, named), 'C05', what='module_local is requested', pc=~clash)


def IFB(c, a, b): return V(bite(cond(c), cond(a), cond(b)))


@ob('C05 C21', 'a header is skipped when it begins with a path excluded by directive')
def skipped_headers(c):
    s = c.sum('Config::is_include_skipping_requested')
    l = elems(T_.f('includes_to_skip'))
    c.cond(s.v, SOME(l, begins(name, each(l))), 'C21 C05', 'C05 C21', 'the header is skipped')


@ob('C05 C21 C22', 'headers added by directive, then the stl header if the option is given, then an empty line if there are any')
def added_headers(c):
    s = c.sum('Config::includes_code')
    l = elems(T_.f('includes_to_add'))
    stl = nn(G('O_include_pybind11_stl'))
    c.text(s.v, S(FOR(l, S('#include ', each(l), '\n')), IF(stl, '#include <pybind11/stl.h>\n'), IF(stl | ne(T_.f('includes_to_add')), '\n')), 'C05 C21 C22')


@ob('C05 C13', 'a custom method of a call-back structure is looked up by the name of the method; none is the default')
def custom_methods(c):
    s = c.sum('Config::is_custom_trampoline_function_requested')
    m = T_.f('custom_trampoline_functions_')
    c.text(s.v, IF(has_(m, name), at_(m, name)), 'C05 C13')


ACCESSORS = {'binders': ('binders_', 'C20'), 'add_on_binders': ('add_on_binders_', 'C20'), 'binder_for_namespaces': ('binder_for_namespaces_', 'C20'),
             'add_on_binder_for_namespaces': ('add_on_binder_for_namespaces_', 'C20'), 'class_includes': ('class_includes_', 'C21'), 'namespace_includes': ('namespace_includes_', 'C21'),
             'default_static_pointer_return_value_policy': ('default_static_pointer_return_value_policy_', 'C06'),
             'default_static_lvalue_reference_return_value_policy': ('default_static_lvalue_reference_return_value_policy_', 'C06'),
             'default_static_rvalue_reference_return_value_policy': ('default_static_rvalue_reference_return_value_policy_', 'C06'),
             'default_member_pointer_return_value_policy': ('default_member_pointer_return_value_policy_', 'C06'),
             'default_member_lvalue_reference_return_value_policy': ('default_member_lvalue_reference_return_value_policy_', 'C06'),
             'default_member_rvalue_reference_return_value_policy': ('default_member_rvalue_reference_return_value_policy_', 'C06'),
             'default_call_guard': ('default_call_guard_', 'C06'), 'prefix_for_static_member_functions': ('prefix_for_static_member_functions_', 'C17'),
             'holder_type': ('holder_type_', 'C14'), 'pybind11_include_file': ('pybind11_include_file_', 'C05')}


@ob('C05 C06 C13 C14 C17 C20 C21', 'each accessor of the configuration yields the member its directive sets')
def accessors(c):
    for a, (m, t) in ACCESSORS.items():
        s = c.sum('Config::' + a)
        c.text(s.v, T_.f(m), 'C05 ' + t)


class Namespaces:
    """a query on namespaces, for two namespaces named for binding and two excluded, of every relative length"""

    def __init__(self, c, q, n=2):
        self.s = s = c.sum('Config::' + q)
        self.nb, self.ns = (elems(T_.f(x)) for x in ('namespaces_to_bind', 'namespaces_to_skip'))
        self.nb, self.ns = u(self.nb), u(self.ns)
        self.B = [mk('el', self.nb, i) for i in range(n)]
        self.K = [mk('el', self.ns, i) for i in range(n)]
        v, t = asb(s.v), ~s.st.pc
        for R in (self.nb, self.ns):
            I = Inst(s.E.loopinfo, R, n)
            v, t = I.go(v), I.go(t)
        self.v, self.t = v, t


def weak_orders(n):
    """all ways to order n things, ties included, as tuples of ranks"""
    import itertools
    out = []
    for t in itertools.product(range(n), repeat=n):
        if set(t) == set(range(len(set(t)))): out.append(t)
    return out


def spelled_out(x, els, size, ins, vs):
    """what the ways to look at the start and the length of the name x mean for the names els: (what holds then, anything not understood)"""
    th, strange = TRUE, False
    imp = lambda a, b: ~a | b
    begins = lambda e: atom(mk('prefix', x, e))
    least, same = {}, {}
    for v in vs:
        t, A = atom_term(v), atom(atom_term(v))
        if t.op == 'sym' or not any(y is x for y in subterms(t)) or t.op == 'ne' and t.a[0] is x: continue
        if t.op == 'prefix' and t.a[0] is x and t.a[1] in els: th = th & imp(ins[t.a[1]], A)
        elif t.op == 'ge0' and t.a[0].op == 'lin' and lin_of(t.a[0])[1] == {mk('size', x): 1}: least[-lin_of(t.a[0])[0]] = A
        elif t.op in ('eq', 'eq0') and [y for y in subterms(t) if y.op == 'int'] and mk('size', x) in t.a: same[[y for y in subterms(t) if y.op == 'int'][0].a[0]] = A
        elif t.op in ('nn', 'eq') and any(y.op == 'call' and y.a[0] in ('compare', 'substr') and len(y.a[1]) >= 3 and y.a[1][0] is x and y.a[1][1].op == 'int' and y.a[1][2] is mk('int', 2) and mk('s', '::') in y.a[1] + t.a for y in t.a):
            y = [y for y in t.a if y.op == 'call'][0]
            sep = ~A if t.op == 'nn' else A
            for e in els:
                if size[e] == y.a[1][1].a[0]:
                    below = atom(mk('sym', 'below', e))
                    th = th & imp(below, sep) & imp(begins(e) & sep, below) & imp(ins[e], begins(e))
        else: strange = True
    for k, A in least.items():
        for k2, A2 in least.items():
            if k2 > k: th = th & imp(A2, A)
        for e in els:
            if not size[e]: continue
            s_, b_ = atom(mk('sym', 'same', e)), atom(mk('sym', 'below', e))
            th = th & imp(s_, A if size[e] >= k else ~A)
            if size[e] + 3 >= k: th = th & imp(b_, A)
            if size[e] >= k: th = th & imp(begins(e), A)
            if size[e] + 1 == k: th = th & imp(begins(e) & ~s_, A)
    for k, A in same.items():
        for e in els:
            if not size[e]: continue
            s_, b_ = atom(mk('sym', 'same', e)), atom(mk('sym', 'below', e))
            th = th & imp(s_, A if size[e] == k else ~A)
            if size[e] + 3 > k: th = th & imp(b_, ~A)
            if size[e] > k: th = th & imp(begins(e), ~A)
            if size[e] == k: th = th & imp(begins(e) & ~s_, ~A)
    return th, strange


@ob('C03 C04 C05', 'a namespace is covered by a directive for it or a namespace around it; the longest name decides, and equally long ones that contradict each other are an error')
def namespace_directives(c):
    x = u(name)
    for q, tags in (('is_namespace_binding_requested', ('C03 C05', 'C04 C05')), ('is_namespace_skipping_requested', ('C04 C05', 'C03 C05'))):
        D = Namespaces(c, q)
        where = D.s.where()
        els = D.B + D.K
        done = set()
        for n in ('', 'a', 'ab', 'a::b', 'a::b::c', 'a::bc'):
            for b in ('', 'a', 'ab', 'a::b', 'b'):
                for k in ('a', 'ab', 'a::b', 'c'):
                    m = {x: mk('s', n), D.B[0]: mk('s', b), D.B[1]: mk('s', 'zz'), D.K[0]: mk('s', k), D.K[1]: mk('s', 'a::bcd')}
                    v, t = asb(put(D.v, m)), asb(put(D.t, m))
                    inb, ink = not b or n == b or n.startswith(b + '::'), n == k or n.startswith(k + '::')
                    err = inb and ink and len(b) == len(k)
                    want = (inb and not (ink and len(k) > len(b))) if 'binding' in q else ink and not (inb and len(b) > len(k))
                    text = '%s(%s) with +namespace %s and -namespace %s' % (q, n, b, k)
                    c.require(t is (TRUE if err else FALSE), text + ' ends%s in an error' % ('' if t is TRUE else ' not'), tags[0], where, sure=t is TRUE or t is FALSE)
                    if not err and t is FALSE: c.require(v is (TRUE if want else FALSE), text + ' is %s' % v, tags[0] if not want else tags[1], where, sure=v is TRUE or v is FALSE)
        for ranks in weak_orders(4):
            for blank in (False, True):
                # the shortest may be the empty name (only for binding)
                size = {e: (r + (0 if blank else 1)) * 3 for e, r in zip(els, ranks)}
                if any(size[e] == 0 for e in D.K): continue
                m = {}
                ins = {}
                for e in els:
                    m[mk('size', e)] = mk('int', size[e])
                    m[mk('ne', e)] = TRUE if size[e] else FALSE
                    m[mk('eq', *sorted((x, e), key=lambda t: t.id))] = m[mk('eq', x, e)] = m[mk('eq', e, x)] = atom(mk('sym', 'same', e)) if size[e] else ~nonempty(x)
                    m[mk('prefix', x, cat(e, mk('s', '::')))] = atom(mk('sym', 'below', e)) if size[e] else FALSE
                    ins[e] = atom(mk('sym', 'same', e)) | atom(mk('sym', 'below', e)) if size[e] else TRUE
                v, t = put(D.v, m), put(D.t, m)
                # the specification
                sv, st, blankb = FALSE, FALSE, FALSE
                some = FALSE
                for b in D.B:
                    if size[b] == 0:
                        blankb = TRUE
                        continue
                    wins = ins[b]
                    for k in D.K:
                        if size[k] >= size[b]: wins = wins & ~ins[k]
                    some = some | wins
                skipwins = FALSE
                for k in D.K:
                    wins = ins[k]
                    for b in D.B:
                        if size[b] >= size[k]: wins = wins & ~ins[b]
                    skipwins = skipwins | wins
                for b in D.B:
                    for k in D.K:
                        if size[b] == size[k]:
                            w = ins[b] & ins[k]
                            for e in els:
                                if size[e] > size[b]: w = w & ~ins[e]
                            st = st | w
                if 'binding' in q:
                    none = TRUE
                    for e in els:
                        if size[e]: none = none & ~ins[e]
                    sv = some | (none & blankb)
                else: sv = skipwins
                c.cmp.known = frozenset(els)
                names = ', '.join('%s of length %d' % (n, size[e]) for n, e in zip(('+namespace b1', '+namespace b2', '-namespace s1', '-namespace s2'), els))
                c.checked += 2
                # names that hold the namespace and are equally long are the same
                th = TRUE
                for i, a in enumerate(els):
                    for b in els[i + 1:]:
                        if size[a] == size[b] and size[a]: th = th & ~(ins[a] & ins[b]) | th & bite(atom(mk('sym', 'same', a)), atom(mk('sym', 'same', b)), ~atom(mk('sym', 'same', b)))
                    for b in els:
                        if size[a] > size[b] and size[b]: th = th & bite(ins[a] & ins[b], ~atom(mk('sym', 'same', b)), TRUE)
                    if size[a]: th = th & ~(atom(mk('sym', 'same', a)) & atom(mk('sym', 'below', a)))
                more, strange = spelled_out(x, els, size, ins, set(support(asb(v))) | set(support(asb(t))))
                th = th & more
                for got, want, what, tg in ((t, st, 'ends in an error', (tags[0], tags[0])), (v, sv, 'holds', tags)):
                    pc = th if got is t else th & ~st & ~t
                    for d, w, tt in ((got & ~want & pc, what + ' (it should not)', tg[0]), (want & ~got & pc, 'should be: it ' + what, tg[1])):
                        if d is FALSE: continue
                        sure = definite(d, c.cmp.known) is not None and not strange
                        k = (q, w, sure)
                        if k in done: continue
                        done.add(k)
                        c.require(False, '%s %s, for %s' % (q, w, names), tt, where, sure=sure)


@ob('C05', 'two-part directives are split at the first space or tab, and it is an error if there is none')
def two_parts(c):
    s = c.sum('split_in_two')
    x = mk('p', 'string')
    A, B_, C = (free(n, ' \t') for n in ('PART1', 'PART2', 'PART3'))
    rest = mk('sym', 'REST')
    sp, tab = mk('s', ' '), mk('s', '\t')
    for first in (sp, tab):
        for second in (B_, cat(B_, sp, C), cat(B_, tab, C), cat(sp, C), cat(tab, C), cat(C, sp), mk('s', '')):
            m = {x: cat(A, first, second)}
            pc = put(s.st.pc, m)
            what = show(m[x], 6)
            c.require(pc is TRUE, 'a text with two parts (%s) is not accepted' % what, 'C05', s.where(), sure=pc is FALSE)
            if pc is not TRUE: continue
            got = [put(tget(tot(s.v), i), m) for i in (0, 1)]
            for g, w, n in ((got[0], A, 'first'), (got[1], second, 'second')):
                c.require(g is w, 'the %s part of %s is taken to be %s' % (n, what, show(g, 6)), 'C05', s.where(), sure=not opaque(tot(g)))
    pc = put(s.st.pc, {x: A})
    c.require(pc is FALSE, 'a text with one part only is accepted', 'C05', s.where(), sure=pc is TRUE)
