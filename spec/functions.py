"""Functions: names, signatures, arguments, policies, default arguments, bindability, requests."""
from check import *
import strfold

F = P('FunctionDecl')
member = isa('CXXMethodDecl', F)
static = member & F.isStatic()
instance = member & ~F.isStatic()
ret = F.getReturnType()
ps = params(F)
p = each(ps)
TK = lambda n, v: F.getTemplatedKind() == enum('clang::FunctionDecl::TK_' + n, v)
nontemplate, template, memberspec, fnspec = TK('NonTemplate', 0), TK('FunctionTemplate', 1), TK('MemberSpecialization', 2), TK('FunctionTemplateSpecialization', 3)
argn = 'a' + tostr(idx(ps))
const_ = IF(member, IF(F.isConst(), ' const'))
targs = F.getTemplateSpecializationArgs()

OPERATORS = {  # C++ operator -> Python names by number of parameters (the last one for more)
    'operator+': ('__pos__', '__add__'), 'operator-': ('__neg__', '__sub__'), 'operator*': ('dereference', '__mul__'), 'operator/': ('__truediv__',),
    'operator%': ('__mod__',), 'operator~': ('__invert__',), 'operator|': ('__or__',), 'operator&': ('', '__and__'), 'operator^': ('__xor__',),
    'operator<<': ('__lshift__',), 'operator>>': ('__rshift__',), 'operator+=': ('__iadd__',), 'operator-=': ('__isub__',), 'operator*=': ('__imul__',),
    'operator/=': ('__itruediv__',), 'operator%=': ('__imod__',), 'operator|=': ('__ior__',), 'operator&=': ('__iand__',), 'operator^=': ('__ixor__',),
    'operator<<=': ('__ilshift__',), 'operator>>=': ('__irshift__',), 'operator()': ('__call__',), 'operator==': ('__eq__',), 'operator!=': ('__ne__',),
    'operator[]': ('__getitem__',), 'operator=': ('assign',), 'operator++': ('pre_increment', 'post_increment'), 'operator--': ('pre_decrement', 'post_decrement'),
    'operator->': ('arrow',)}


@ob('C17', 'a C++ operator maps to the Python operator of the same meaning and arity, an unmapped one to none')
def operator_names(c):
    s = c.sum('cpp_python_operator')
    r = S('')
    n = count(ps)
    for o, names in OPERATORS.items():
        v = S(names[-1])
        for i in reversed(range(len(names) - 1)): v = IF(n == i, names[i], v)
        r = IF(F.getNameAsString() == o, v, r)
    c.text(s.v, r, 'C17')


@ob('C17 C11', 'the Python name of a function is the operator name for operators and the C++ name otherwise')
def function_name(c):
    s = c.sum('python_function_name')
    c.text(s.v, IF(F.isOverloadedOperator(), TAG('C17', F.cpp_python_operator()), F.getNameAsString()), 'C11')


@ob('C11', 'the argument list names the type of every parameter, in order')
def argument_list(c):
    s = c.sum('function_arguments')
    c.text(s.v, out('fix_boolean_types', 0, FOR(ps, lambda p: call('standard_name', p.getOriginalType()) + SEP(ps))), 'C11')


@ob('C11 C15', 'a lambda takes, and passes on, exactly the first n parameters, by reference unless they are references or pointers')
def argument_list_lambda(c):
    s = c.sum('function_arguments_for_lambda', nparams=2)
    n = P('unsigned int')
    first = less(idx(ps), n)
    sep = IF(V(ge0(mklin(-2, {size(rng_list(ps)): 1, mk('idx', ps, 1): -1}))) & less(plus(idx(ps), 1), n), ', ')
    qt = p.getOriginalType()
    byref = IF(~qt.isReferenceType() & ~qt.isPointerType(), IF(~qt.isConstQualified(), 'const & ', '& '))
    c.text(s.v, TUP(out('fix_boolean_types', 0, FOR(ps, IF(first, call('standard_name', qt) + ' ' + byref + argn + sep))),
                    FOR(ps, IF(first, argn + sep))), 'C11 C15')


@ob('C13', 'an overriding member function declares every parameter with its type and passes each of them on')
def argument_list_override(c):
    s = c.sum('function_arguments_for_py_overload', nparams=1)
    qt = p.getOriginalType()
    c.text(s.v, TUP(out('fix_boolean_types', 0, FOR(ps, call('standard_name', qt) + ' ' + argn + SEP(ps))),
                    FOR(ps, argn + SEP(ps)),
                    FOR(ps, IF(qt.isLValueReferenceType(), '&') + argn + SEP(ps))), 'C13')


@ob('C11', 'the pointer type used to pick an overload has the return type, class, parameter types and constness of the function')
def pointer_type(c):
    s = c.sum('function_pointer_type')
    c.text(s.v, out('fix_boolean_types', 0, call('standard_name', ret) + ' (' + IF(member, IF(F.isStatic(), '', F.getParent().class_qualified_name() + '::')) + '*)(' +
                    F.function_arguments() + ')' + const_ + IF(member & (F.getRefQualifier() == enum('clang::RQ_LValue', 1)), ' &')), 'C11')


@ob('C11 C03', 'the qualified name of a function holds its name, template arguments, parameter types and constness')
def qualified_function_name(c):
    s = c.sum('function_qualified_name', nparams=2)
    c.text(s.v, out('fix_boolean_types', 0, IF(P('bool'), '', call('standard_name', ret) + ' ') + call('standard_name', F.getQualifiedNameAsString() + F.template_specialization()) +
                    '(' + F.function_arguments() + ')' + const_), 'C11 C03')


targ = each(elems(targs))
TYPES = [(ret, (), V(TRUE)), (p.getOriginalType(), ((ps, 1),), V(TRUE)),
         (targ.getAsType(), ((elems(targs), 1),), ~nontemplate & nn(targs) & (targ.getKind() == enum('clang::TemplateArgument::Type', 1)))]
intype = lambda f: anyof(*[V(cond(g) & cond(f(t))) if not l else SOME(l[0][0], g & f(t)) for t, l, g in TYPES])


@ob('C07 C21 C03', 'the types a function depends on are its return type, every parameter type and every type among its template arguments')
def function_types(c):
    s = c.sum('get_type_dependencies', 'FunctionDecl')
    R_ = elems(targs)
    c.text(s.v, S(ITEM(ret), FOR(ps, ITEM(p.getOriginalType())), IF(~nontemplate, IF(nn(targs), FOR(R_, IF(targ.getKind() == enum('clang::TemplateArgument::Type', 1), ITEM(targ.getAsType())))))), 'C07 C21 C03')


@ob('C04', 'a function is requested when its name, its signature, its namespace or any type it uses is requested')
def function_requested(c):
    s = c.sum('is_binding_requested', 'FunctionDecl')
    req = lambda n: call('is_function_binding_requested', CONFIG, n)
    c.cond(s.v, req(F.getQualifiedNameAsString()) | req(F.function_qualified_name(True)) | call('is_namespace_binding_requested', CONFIG, F.namespace_from_named_decl()) |
           intype(lambda t: call('is_binding_requested', t, CONFIG)), 'C04', what='function is requested')


@ob('C03', 'signature directives win over name directives, which win over namespace and type directives; skipping a type skips its users')
def function_skipped(c):
    s = c.sum('is_skipping_requested', 'FunctionDecl')
    skip = lambda n: call('is_function_skipping_requested', CONFIG, n)
    req = lambda n: call('is_function_binding_requested', CONFIG, n)
    sig, name = F.function_qualified_name(True), call('standard_name', F.getQualifiedNameAsString())
    par = F.getParent()
    spec = CASES((skip(sig), V(TRUE)), (req(sig), V(FALSE)), (skip(name), V(TRUE)), (req(name), V(FALSE)),
                 call('is_namespace_skipping_requested', CONFIG, F.namespace_from_named_decl()) |
                 (member & isa('ClassTemplateSpecializationDecl', par) & skip(call('standard_name', par.getQualifiedNameAsString() + '::' + F.getNameAsString()))) |
                 intype(lambda t: call('is_skipping_requested', t, CONFIG)))
    c.cond(s.v, spec, 'C03', what='function is skipped')


# ---------------------------------------------------------------- one binding
n_, all_, parent, lam = P('unsigned int'), P('bool'), P('CXXRecordDecl'), P('bool2')


def return_type_of_lambda():
    r = call('standard_name', ret)
    for a, b in (('enum ', ''), ('class ', ''), ('struct ', ''), ('const enum ', 'const '), ('const class ', 'const '), ('const struct ', 'const ')):
        r = IF(begins(r, a), b + substr(r, len(a)), r)
    return r


def policy(kind):
    pol = lambda x: TAG('C06', ', ' + CONFIG.f('default_%s_%s_return_value_policy_' % (kind, x)))
    return CASES((ret.isPointerType(), pol('pointer')), (ret.isLValueReferenceType(), pol('lvalue_reference')), (ret.isRValueReferenceType(), pol('rvalue_reference')), TAG('C06', ''))


def at_most_all(t):
    """t, given that no more arguments are bound than there are parameters: counting up to their number is going through the parameters"""
    R, ps_, memo = mk('irange', mk('int', 0), u(n_)), u(ps), {}
    inside = lambda d: ~asb(ge0(add(engine.position(ps_, d), u(n_), -1)))
    at = lambda d, x: engine.substitute(x, {elem(R, d): engine.position(ps_, d)})

    def go(t):
        if isinstance(t, tuple): return tuple(go(x) for x in t)
        if not isinstance(t, (T, B)) or t is TRUE or t is FALSE: return t
        if t in memo: return memo[t]
        if isinstance(t, B): r = engine.subst_b(t, lambda a: engine.tob_atom(go(a)))
        elif t.op == 'star' and t.a[0] is R: r = engine.star(ps_, t.a[1], ite(inside(t.a[1]), go(at(t.a[1], t.a[2])), EMPTY))
        elif t.op == 'ex' and t.a[0] is R: r = mk('b', ex(ps_, t.a[1], inside(t.a[1]) & asb(go(at(t.a[1], t.a[2])))))
        elif t.op == 'upto' and t.a[0] is R and asb(go(at(t.a[1], t.a[2]))) is FALSE: r = go(t.a[3])
        else:
            a = tuple(go(x) for x in t.a)
            r = engine.rebuild(t.op, a) if a != t.a else t
        memo[t] = r
        return r
    return go(t)


@ob('C06 C11 C12 C15 C17', 'a binding statement names the function, takes its address or wraps it, carries documentation, policy, argument names and call guard')
def bind_one_function(c):
    s = c.sum('bind_function', 'FunctionDecl', nparams=6)
    qn = call('standard_name', IF(nn(parent), parent.class_qualified_name() + '::' + F.getNameAsString(), F.getQualifiedNameAsString()))
    full = (count(ps) == n_) & ~lam
    args = call('function_arguments_for_lambda', F, n_)
    doc = F.generate_documentation_string_for_declaration()
    sig = 'C++: ' + call('standard_name', F.getQualifiedNameAsString() + '(' + F.function_arguments() + ')' + IF(member & F.isConst(), ' const') + ' --> ' + call('standard_name', ret))
    direct = '(' + F.function_pointer_type() + ') &' + qn + F.template_specialization()
    rt = return_type_of_lambda()
    me = IF(nn(parent), parent.class_qualified_name(), F.getParent().class_qualified_name()) + IF(F.isConst(), ' const') + ' &o' + IF(nn(n_), ', ')
    obj = '[](' + me + get(args, 0) + ') -> ' + rt + ' { return o.' + F.getNameAsString() + F.template_specialization() + '(' + get(args, 1) + '); }'
    fre = '[](' + get(args, 0) + ') -> ' + rt + ' { return ' + qn + F.template_specialization() + '(' + get(args, 1) + '); }'
    spec = S('.def', IF(static, '_static'), '("', IF(static, CONFIG.f('prefix_for_static_member_functions_')), F.python_function_name(), '", ',
             TAG('C11 C15', IF(full, direct, IF(instance, obj, fre))), ', "', TAG('C12 C11', IF(full, IF(ne(doc), doc + '\\n\\n') + sig)), '"',
             IF(instance, policy('member'), policy('static')),
             TAG('C11 C15', FOR(ps, IF(less(idx(ps), n_), ', pybind11::arg("' + p.getNameAsString() + '")'))),
             TAG('C06', IF(ne(CONFIG.f('default_call_guard_')), ', pybind11::call_guard<' + CONFIG.f('default_call_guard_') + '>()')), ');')
    code = at_most_all(s.v)
    c.text(code, spec, 'C11')
    # for every form of the return type that starts with a keyword
    X = strfold.free('X', ' ')
    for a in ('', 'const ', 'enum ', 'class ', 'struct ', 'const enum ', 'const class ', 'const struct '):
        m = {u(call('standard_name', ret)): cat(mk('s', a), X)}
        c.text(strfold.put(code, m), V(strfold.put(u(spec), m)), 'C11')
    for a in ('unsigned long long int', 'const classified_name::B &', 'class structure::classical', 'const class enumerated::Y *'):
        m = {u(call('standard_name', ret)): mk('s', a)}
        c.text(strfold.put(code, m), V(strfold.put(u(spec), m)), 'C11')


@ob('C07', 'binding a function requests bindings for its return type and every parameter type it exposes')
def bind_function_requests(c):
    s = c.sum('bind_function', 'FunctionDecl', nparams=6)
    ctx = P('Context')
    c.effects(s, {'request_bindings'}, [
        ('request_bindings', (ret.getCanonicalType(), ctx), (), all_, 'C07', 'C07'),
        ('request_bindings', (p.getOriginalType(), ctx), ((ps, 1),), all_ & less(idx(ps), n_), 'C07', 'C07')])


@ob('C15 C11', 'one binding per accepted number of arguments: from the first default argument to all of them; none dropped when a parameter is a function')
def default_arguments(c):
    s = c.sum('bind_function', 'basic_string', nparams=5)
    anyfn = SOME(ps, lambda p: call('is_function_type', p.getOriginalType().getCanonicalType()))
    hasdef = lambda p: ~anyfn & p.hasDefaultArg()
    isdef = cond(hasdef(p))
    first = V(ite(ex(ps, 1, isdef), engine.first('firstidx', ps, 1, isdef), size(rng_list(ps))))
    r = mk('irange', u(first), u(plus(count(ps), 1)))
    n = each(r)
    inc = F.relevant_include()
    note = IF(nn(G('O_annotate_functions')), TAG('C22', '\t// function-signature: ' + F.function_qualified_name(False) + '(' + F.function_arguments() + ') file:' +
              IF(ne(inc), substr(inc, 1, minus(num(inc), 2))) + ' line:' + F.line_number() + '\n'))
    one = call('bind_function', F, n, count(ps) == n, P('Context'), P('CXXRecordDecl'), P('bool') | F.isVariadic())
    c.text(s.v, S(note, TAG('C15', FOR(r, P('string') + one + '\n'))), 'C15')


@ob('C02 C04 C17', 'a function is bindable when it is not deleted, not a template, not a conversion, not in an unnamed scope, not banned, every type it uses is bindable and an operator is a mapped member')
def bindable_function(c):
    s = c.sum('is_bindable', 'FunctionDecl')
    v = uncached(c, s, 'FunctionDecl')
    q = F.getQualifiedNameAsString()
    pos = V(mk('srfind', u(q), mk('s', ')'), mk('npos')))
    prev = V(mk('at', u(q), u(minus(pos, 1))))
    plain = ~contains(q, ')') | (V(ge0(u(minus(pos, 1)))) & V(eq(u(prev), mk('chr', 40))))
    c.conj(v, [('C02', plain), ('C02', ~F.isDeleted()), ('C02 C17', ~F.isOverloadedOperator() | (member & ne(F.cpp_python_operator()))), ('C02', ~template),
               ('C02', ~isa('CXXConversionDecl', F)), ('C02', call('is_bindable', ret)), ('C02', ALL(ps, lambda p: call('is_bindable', p.getOriginalType().getCanonicalType()))),
               ('C02', ~(member & (F.isVolatile() | (F.getRefQualifier() == enum('clang::RQ_RValue', 2))))),
               ('C02', ~call('is_banned_symbol', F))], 'C04', 'the function is bindable')


def uncached(c, s, key):
    """the value computed when the memo has no entry"""
    v = asb(s.v)
    for t in atoms_of(v):
        if t.op == 'has' and t.a[0].op == 'static' and t.a[1] is mk('p', key):
            v = cofactor(v, [i for i in support(v) if atom_term(i) is t][0], False)
    return v


@ob('C04 C03', 'a function is queried with its own declaration')
def function_binder(c):
    th = THIS('FunctionBinder').f('F')
    s = c.sum('FunctionBinder::bindable')
    c.cond(s.v, call('is_bindable', th), 'C02', 'C04')
    s = c.sum('FunctionBinder::id')
    c.text(s.v, th.function_qualified_name(False), 'C11 C08')


def request_flags(c, cls, fieldname):
    """skipping first, then binding, each only when asked for"""
    s = c.sum(cls + '::request_bindings_and_skipping')
    me = THIS(cls)
    d = me.f(fieldname)
    flag = lambda n, v: V(tob(mk('bin', '&', mk('p', 'RequestFlags'), mk('enum', 'binder::' + n, v))))
    skip = flag('skipping', 1) & call('is_skipping_requested', d, CONFIG)
    c.cmp.known = frozenset([mk('bin', '&', mk('p', 'RequestFlags'), mk('enum', 'binder::' + n, v)) for n, v in (('skipping', 1), ('binding', 2))])
    got = asb(s.field('skipping_requested_'))
    c.cond(got, V(tob(u(me.f('skipping_requested_')))) | skip, 'C03', 'C03', 'skipping is recorded')
    c.effects(s, {'request_bindings'}, [('request_bindings', (me,), (), ~skip & flag('binding', 2) & call('is_binding_requested', d, CONFIG), 'C04', 'C03')])


@ob('C03 C04', 'a skip request on a function is recorded, otherwise a binding request is')
def function_request(c): request_flags(c, 'FunctionBinder', 'F')


@ob('C11 C16 C23', 'the code of a free function is a comment naming it and one statement per arity on the module of its namespace')
def free_function(c):
    s = c.sum('FunctionBinder::bind')
    me = THIS('FunctionBinder')
    f = me.f('F')
    inc = f.relevant_include()
    done = bound(me)
    code = S('\t// ', f.getQualifiedNameAsString(), '(', f.function_arguments(), ') file:', IF(ne(inc), substr(inc, 1, minus(num(inc), 2))), ' line:', f.line_number(), '\n',
             TAG('C23 C11', call('bind_function', '\tM("' + f.namespace_from_named_decl() + '")', f, P('Context'), None, False)), '\n')
    c.text(s.field('code_'), IF(done, me.f('code_'), code), 'C11 C16')


def bound(me): return ne(me.f('code_')) | call('is_python_builtin', call('named_decl', me))


@ob('C21', 'the headers of a function and of every type it uses are included')
def function_includes(c):
    s = c.sum('add_relevant_includes', 'FunctionDecl')
    inc, lvl = P('IncludeSet'), P('int')
    new = include_once(F, lvl)
    sp = [('add_relevant_include_for_decl', (F, inc), (), new, 'C21', 'C16')]
    for t, l, g in TYPES: sp.append(('add_relevant_includes', (t, inc, lvl), l, new & g, 'C21', 'C16'))
    c.effects(s, {'add_relevant_include_for_decl', 'add_relevant_includes'}, sp)


def include_once(d, lvl):
    st = P('IncludeSet').f('stack_')
    return ~has_(st, d) | less(lvl, at_(st, d))


@ob('C21', 'the headers of a bound function or enumeration are those its declaration needs, from the top')
def binder_includes(c):
    for b, m in (('FunctionBinder', 'F'), ('EnumBinder', 'E')):
        s = c.sum(b + '::add_relevant_includes')
        c.effects(s, {'add_relevant_includes'}, [('add_relevant_includes', (THIS(b).f(m), P('IncludeSet'), 0), (), V(TRUE), 'C21', 'C21')])


@ob('C11', 'the template arguments of an instantiated function are all named, in order, those of a pack without its brackets, between one pair of brackets')
def function_template_arguments(c):
    s = c.sum('template_specialization', 'FunctionDecl')
    ta = elems(targs)
    e = each(ta)
    a = call('template_argument_to_string', e)
    pack = e.getKind() == enum('clang::TemplateArgument::Pack', 8)
    empty = pack & ~nn(e.pack_size())
    inner = FOR(ta, IF(empty, '', IF(pack & ~less(num(a), 3), substr(a, 1, minus(num(a), 2)), a) + ','))
    t = IF(SOME(ta, ~empty), S('<', V(mk('chop', u(inner))), '>'))
    c.text(s.v, call('standard_name', IF((memberspec | fnspec) & nn(targs), out('fix_boolean_types', 0, t))), 'C11')
    # every argument spelled alike: a type, a specialization, a parameter pack, an empty pack
    some = cond(ne(FOR(ta, S('x')))) & cond((memberspec | fnspec) & nn(targs))
    flags = lambda m: {atom_term(v): b for x, b in m for v in support(cond(x))}
    for text, k, size, part in (('int', FALSE, None, 'int,'), ('A<int>', FALSE, None, 'A<int>,'), ('<int, char>', TRUE, TRUE, 'int, char,'), ('<int>', TRUE, TRUE, 'int,'), ('<A<int>>', TRUE, TRUE, 'A<int>,'), ('<>', TRUE, FALSE, '')):
        m = flags([(pack, k)] + ([(nn(e.pack_size()), size)] if size is not None else []))
        m[u(a)] = mk('s', text)
        x = strfold.put(s.v, m)
        c.text(x, call('standard_name', out('fix_boolean_types', 0, S('<', V(mk('chop', u(FOR(ta, S(part))))), '>') if part else S(''))), 'C11', pc=some)
