"""Classes: names, bindability, members, constructors, trampolines, bases, nested classes, custom binders."""
from check import *
import strfold
from functions import uncached, request_flags, bound, include_once

C = P('CXXRecordDecl')
AS = {'public': enum('clang::AS_public', 0), 'protected': enum('clang::AS_protected', 1), 'private': enum('clang::AS_private', 2)}
TA = lambda n, v: enum('clang::TemplateArgument::' + n, v)
public = lambda d: d.getAccess() == AS['public']
private = lambda d: d.getAccess() == AS['private']
spec_ = isa('ClassTemplateSpecializationDecl', C)
args_ = elems(C.getTemplateArgs())
arg = each(args_)
ds = lambda c=C: decls(c)
cfg = CONFIG
std_name = call('standard_name', C.getQualifiedNameAsString())
skip_fn = lambda m: call('is_skipping_requested', m, CONFIG)
ctor, dtor = (lambda m: isa('CXXConstructorDecl', m)), (lambda m: isa('CXXDestructorDecl', m))
bs = bases(C)
b = each(bs)
bt = b.getType().getCanonicalType()
R = bt.getDecl()
isrec = isa('RecordType', bt) & nn(R)
MODULE = lambda ns: S('M("', ns, '")')
shadows = lambda d: mk('range', 'shadow', u(d))
specs_ = lambda d: mk('range', 'spec', u(d))
cspecs_ = lambda d: mk('range', 'cspec', u(d))


def setat(s, i, v): return V(mk('setat', u(s), u(i), u(v)))


@ob('C11 C18', 'the template arguments of a class are all named, in order, between one pair of brackets')
def class_template_arguments(c):
    s = c.sum('template_specialization', 'CXXRecordDecl')
    a = call('template_argument_to_string', arg)
    ch = lambda x, i: V(at(u(x), u(i)))
    wrapped = (ch(a, 0) == V(mk('chr', 60))) & (ch(a, minus(num(a), 1)) == V(mk('chr', 62)))
    a2 = IF(wrapped, substr(a, 1, minus(num(a), 2)), a)
    inner = FOR(args_, IF(wrapped, IF(ne(substr(a, 1, minus(num(a), 2))), substr(a, 1, minus(num(a), 2)) + ','), IF(ne(a), a + ',')))
    got = s.v
    want = out('fix_boolean_types', 0, IF(spec_, S('<', IF(ne(inner), V(mk('chop', u(inner)))), '>')))
    c.text(got, want, 'C11')
    # every argument spelled alike: a type, a parameter pack, a specialization, an empty pack
    n = cond(ne(FOR(args_, S('x'))))
    for text, part in (('int', 'int,'), ('<int, char>', 'int, char,'), ('A<int>', 'A<int>,'), ('<>', '')):
        x = strfold.put(got, {u(a): mk('s', text)})
        l = FOR(args_, S(part)) if part else None
        c.text(x, out('fix_boolean_types', 0, IF(spec_, S('<', V(mk('chop', u(l))) if part else '', '>'))), 'C11', pc=n)


@ob('C11', 'class names: the name used in C++ code and the Python name both stem from the name and the template arguments')
def class_names(c):
    n = call('standard_name', C.getNameAsString() + C.template_specialization())
    c.text(c.sum('class_name').v, IF(C.namespace_from_named_decl() == 'std', call('simplify_std_class_name', n), n), 'C11')
    c.text(c.sum('python_class_name').v, call('mangle_type_name', C.class_name(), True), 'C11')
    c.text(c.sum('class_qualified_name').v, call('standard_name', C.getQualifiedNameAsString() + C.template_specialization()), 'C11 C03')


@ob('C07 C03 C21', 'the types a class depends on are the types among its template arguments')
def class_types(c):
    s = c.sum('get_type_dependencies', 'CXXRecordDecl')
    c.text(s.v, IF(spec_, FOR(args_, IF(arg.getKind() == TA('Type', 1), ITEM(arg.getAsType())))), 'C07 C03 C21')


@ob('C14', 'a class that derives from enable_shared_from_this, at any depth, is recognised')
def shared_from_this(c):
    s = c.sum('is_inherited_from_enable_shared_from_this', unstop=('is_inherited_from_enable_shared_from_this',))
    c.cond(s.v, (C.getQualifiedNameAsString() == 'std::enable_shared_from_this') |
           (C.isCompleteDefinition() & SOME(bs, isrec & call('is_inherited_from_enable_shared_from_this', R))), 'C14', what='the class is shared from this')


f = P('FieldDecl')


@ob('C14 C01', 'a field whose class cannot be copy-assigned in public, because it says so or because of its own members, is not assignable')
def field_assignable(c):
    s = c.sum('is_field_assignable')
    r = f.getType().getDecl()
    barred = SOME(decls(r), lambda m: m.isCopyAssignmentOperator() & (~public(m) | m.isDeleted()), only='CXXMethodDecl')
    fixed = SOME(decls(r), lambda m: m.getType().isConstQualified() | m.getType().isReferenceType() | ~call('is_field_assignable', m), only='FieldDecl')
    implicit = r.hasDefinition() & ~r.hasUserDeclaredCopyAssignment()
    c.cond(s.v, ~(f.getType().isRecordType() & nn(r) & (barred | (implicit & fixed))), 'C14 C01', what='the field is assignable')


@ob('C02 C04 C01', 'pointer, reference, array and unnamed-struct fields, bit-fields and fields of unbindable type are not bound; all others are')
def field_bindable(c):
    s = c.sum('is_bindable', 'FieldDecl')
    t = f.getType()
    c.conj(s.v, [('C02', ~t.isAnyPointerType()), ('C02', ~t.isReferenceType()), ('C02', ~t.isArrayType()), ('C02', ~f.isAnonymousStructOrUnion()), ('C01 C02', ~f.isBitField()), ('C02', call('is_bindable', t))],
           'C04', 'the field is bindable')


@ob('C14 C11', 'a const or unassignable field is read-only, any other is writable; the binding names the field of the class')
def data_member(c):
    s = c.sum('bind_data_member')
    q = P('string')
    for x in ('::(anonymous)', '::(anonymous union)'): q = IF(ends(q, x), substr(q, 0, minus(num(q), len(x))), q)
    member = lambda q: S(TAG('C14', '.def_', IF(f.getType().isConstQualified() | ~f.is_field_assignable(), 'readonly', 'readwrite')), '("', f.getNameAsString(), '", &', q, '::', f.getNameAsString(), ')')
    c.text(s.v, member(q), 'C11')
    # the name of an anonymous union is not part of the name of a member
    for n, w in (('n::A', 'n::A'), ('A', 'A'), ('n::A::(anonymous)', 'n::A'), ('n::A::(anonymous union)', 'n::A'), ('Aunion)', 'Aunion)'), ('n::A::(anonymous)::B', 'n::A::(anonymous)::B'), ('n::LongerName::Inner', 'n::LongerName::Inner')):
        at = lambda x: strfold.put(x, {u(P('string')): mk('s', n)})
        c.text(at(s.v), member(w), 'C11')


@ob('C04 C13', 'a const method is dropped only when a non-const method of the same name, parameters and access exists')
def const_overload(c):
    s = c.sum('is_const_overload')
    m = P('CXXMethodDecl')
    n = m.function_qualified_name(True)
    c.cond(s.v, m.isConst() & less(6, num(n)) & SOME(decls(m.getParent()), lambda o: (o.getAccess() == m.getAccess()) & ~o.isConst() & (o.function_qualified_name(True) == substr(n, 0, minus(num(n), 6))), only='CXXMethodDecl'),
           'C04 C13', what='the method is a const overload')
    # the name of a const method ends in ' const', that of another does not
    sig = cat(mk('s', 'f('), strfold.free('sig', ''), mk('s', ')'))
    other = each(decls(m.getParent()))
    c.cond(strfold.put(s.v, {u(n): cat(sig, mk('s', ' const')), u(other.isConst()): FALSE}), SOME(decls(m.getParent()), lambda o: (o.getAccess() == m.getAccess()) & (o.function_qualified_name(True) == V(sig)), only='CXXMethodDecl'),
           'C04 C13', what='the method is a const overload', pc=cond(m.isConst()))
    c.cond(s.v, V(FALSE), 'C04 C13', what='the method is a const overload', pc=cond(~m.isConst()))


@ob('C02 C04', 'a std::function is bindable unless a type in its signature is not')
def std_function_bindable(c):
    s = c.sum('is_std_function_bindable')
    k = (arg.getKind() == TA('Declaration', 2))
    c.cond(s.v, V(TRUE), 'C02', 'C04', what='the std::function is bindable', pc=cond(~spec_))
    c.cond(strfold.put(s.v, {atom_term(v): FALSE for v in support(cond(k))}), V(TRUE), 'C02', 'C04', what='the std::function is bindable')


@ob('C02 C04 C01', 'a class is bindable when it is named, reachable, public, not dependent, complete or instantiated, and not banned')
def class_bindable(c):
    s = c.sum('is_bindable', 'CXXRecordDecl')
    v = uncached(c, s, 'CXXRecordDecl')
    q = C.getQualifiedNameAsString()
    unnamed = contains(q, ')')
    inst = IF(q == 'std::function', call('is_std_function_bindable', C), ~(C.getPointOfInstantiation().isInvalid() & ~call('is_python_builtin', C)))
    c.conj(v, [('C02', ~C.isInAnonymousNamespace()), ('C02', C.hasNameForLinkage() | C.isCXXClassMember()), ('C02', ~(unnamed & C.hasNameForLinkage())),
               ('C02', ~(unnamed & ~C.hasNameForLinkage() & ~C.isAnonymousStructOrUnion())), ('C02', ~C.isDependentType()),
               ('C01 C02', ~(C.getAccess() == AS['protected'])), ('C01 C02', ~private(C)),
               ('C02', C.isCompleteDefinition() | (spec_ & cond(inst))), ('C02', ~call('is_banned_symbol', C))], 'C04', 'the class is bindable')


@ob('C04 C03', 'a class is requested when it is named by a directive, or when its namespace is and none of its types is skipped')
def class_requested(c):
    s = c.sum('is_binding_requested', 'CXXRecordDecl')
    req = lambda n: call('is_class_binding_requested', CONFIG, n)
    tdeps = IF(spec_, V(TRUE), V(FALSE))
    ts = lambda g: SOME(elems(C.get_type_dependencies()), lambda t: g(t))
    opt = V(tob(u(G('O_bind_class_template_specialization'))))
    ns = call('is_namespace_binding_requested', CONFIG, C.namespace_from_named_decl())
    skipped = SOME(args_, (arg.getKind() == TA('Type', 1)) & call('is_skipping_requested', arg.getAsType(), CONFIG))
    c.cond(s.v, req(C.class_qualified_name()) | req(std_name) | (~spec_ & ns) | (spec_ & opt & ns & ~skipped), 'C03 C04', 'C04', what='class is requested')


@ob('C03', 'a directive on the specialization wins over one on the template, which wins over namespace and argument directives')
def class_skipped(c):
    s = c.sum('is_skipping_requested', 'CXXRecordDecl')
    skip = lambda n: call('is_class_skipping_requested', CONFIG, n)
    req = lambda n: call('is_class_binding_requested', CONFIG, n)
    q = C.class_qualified_name()
    argskip = spec_ & SOME(args_, (arg.getKind() == TA('Type', 1)) & call('is_skipping_requested', arg.getAsType(), CONFIG))
    c.cond(s.v, CASES((skip(q), V(TRUE)), (req(q), V(FALSE)), (skip(std_name), V(TRUE)), (req(std_name), V(FALSE)),
                      call('is_namespace_skipping_requested', CONFIG, C.namespace_from_named_decl()) | argskip), 'C03', what='class is skipped')


@ob('C14 C04', 'the implicit default constructor is offered only when every base, at any depth, has a usable one')
def base_default_constructor(c):
    s = c.sum('base_default_default_constructor_available', unstop=('base_default_default_constructor_available',))
    bad = SOME(decls(R), lambda t: t.isDefaultConstructor() & (private(t) | t.isDeleted()), only='CXXConstructorDecl')
    c.cond(s.v, ALL(bs, ~isrec | (R.hasDefaultConstructor() & ~bad & call('base_default_default_constructor_available', R))), 'C14', 'C04', 'bases can be default constructed')


@ob('C03 C04 C11', 'a class is bound when bindable and not skipped; directives are looked up for the class itself')
def class_binder(c):
    me = THIS('ClassBinder')
    d = me.f('C')
    c.cond(c.sum('ClassBinder::bindable').v, call('is_bindable', d) & ~V(tob(u(me.f('skipping_requested_')))), 'C02 C03', 'C04', 'the class is bindable')
    c.text(c.sum('ClassBinder::id').v, d.class_qualified_name(), 'C11 C08')
    request_flags(c, 'ClassBinder', 'C')


# ------------------------------------------------------------------------------------------------ data members
@ob('C01 C02 C03 C04', 'public fields, and fields made public by a using-declaration, are bound unless skipped')
def data_members(c):
    s = c.sum('binding_public_data_members')
    d = each(ds())
    sh = shadows(d)
    us = each(sh)
    t = us.getTargetDecl()
    skip = lambda x: call('is_field_skipping_requested', CONFIG, x.getQualifiedNameAsString())
    line = lambda x: '\tcl' + call('bind_data_member', x, C.class_qualified_name()) + ';\n'
    using = FOR(ds(), IF(isa('UsingDecl', d), FOR(sh, IF(isa('UsingShadowDecl', us) & isa('FieldDecl', t),
                EMIT(line(t), 'C04', ('C01', public(d)), ('C03', ~skip(t)), ('C02', call('is_bindable', t)))))))
    own = FOR(ds(), IF(isa('FieldDecl', d), EMIT(line(d), 'C04', ('C01', public(d)), ('C03', ~skip(d)), ('C02', call('is_bindable', d)))))
    c.text(s.v, S(using, own), 'C04 C11')


# ------------------------------------------------------------------------------------------------ member functions
def bindable_method(m, access):
    return [('C01', access), ('C02', call('is_bindable', m)), ('C03', ~skip_fn(m)), ('C02 C11', ~ctor(m)), ('C02 C11', ~dtor(m)), ('C04', ~call('is_const_overload', m))]


@ob('C01 C02 C03 C04', 'public methods, instantiated public method templates and methods made public by a using-declaration are bound unless skipped')
def member_functions(c):
    s = c.sum('binding_public_member_functions')
    ctx = P('Context')
    d = each(ds())
    us = each(shadows(d))
    t = us.getTargetDecl()
    sp = each(specs_(d))
    one = lambda m: call('bind_function', '\tcl', m, ctx, None, False)
    using = IF(isa('UsingDecl', d), FOR(shadows(d), IF(isa('UsingShadowDecl', us) & isa('CXXMethodDecl', t), EMIT(call('bind_function', '\tcl', t, ctx, C, True), 'C04', *bindable_method(t, public(d))))))
    tmpl = IF(isa('FunctionTemplateDecl', d), FOR(specs_(d), IF(isa('CXXMethodDecl', sp), EMIT(one(sp), 'C04', *bindable_method(sp, public(sp))))))
    own = FOR(ds(), IF(isa('CXXMethodDecl', d), EMIT(one(d), 'C04', *bindable_method(d, public(d)))))
    c.text(s.v, S(FOR(ds(), S(using, tmpl)), own), 'C04 C11')


@ob('C01 C03 C04', 'members of public non-virtual bases of a class template specialization are bound in the derived class unless the base is skipped')
def template_bases(c):
    s = c.sum('binding_template_bases', unstop=('binding_template_bases',))
    cb, cc, ctx = P('bool'), P('bool2'), P('Context')
    t = S(call('binding_public_data_members', R), call('binding_public_member_functions', R, cb, cc, ctx), call('binding_template_bases', R, cb, cc, ctx))
    c.text(s.v, IF(spec_, FOR(bs, IF(isrec, EMIT(t, 'C04', ('C01', b.getAccessSpecifier() == AS['public']), ('C11', ~b.isVirtual()), ('C03', ~call('is_skipping_requested', R, CONFIG)))))), 'C04')


# ------------------------------------------------------------------------------------------------ bases
SKIPPED_BASES = ('std::enable_shared_from_this', 'std::string', 'std::basic_string', 'std::pair', 'std::tuple')


def base_guards():
    n = call('standard_name', R.getQualifiedNameAsString())
    return [('C01', b.getAccessSpecifier() == AS['public']), ('C02', ~oneof(n, SKIPPED_BASES)), ('C02', call('is_bindable', R)), ('C03', ~call('is_skipping_requested', R, CONFIG))]


@ob('C01 C02 C03 C04 C07', 'every public, bindable base that is not skipped is named as a base, requested and recorded as a dependency; no other is')
def base_classes(c):
    s = c.sum('ClassBinder::maybe_base_classes')
    me = THIS('ClassBinder')
    g = substC(base_guards())
    r, bb = sC(R), sC(b)
    rs = sCr(bs)
    c.text(s.v, FOR(rs, IF(sC(isrec), EMIT(', ' + r.class_qualified_name(), 'C04', *g))), 'C04')
    allg = allof(sC(isrec), *[x for _, x in g])
    c.effects(s, {'request_bindings'}, [('request_bindings', (sC(bt), P('Context')), ((rs, 1),), allg, 'C07', 'C07')])
    c.text(s.field('dependencies_'), S(me.f('dependencies_'), FOR(rs, IF(allg, ITEM(r)))), 'C07')


CC = THIS('ClassBinder').f('C')


def sC(x): return V(engine.substitute(u(x), {u(C): u(CC)}))


def sCr(r): return engine.substitute(r, {u(C): u(CC)})


def substC(gs): return [(p, sC(g)) for p, g in gs]


# ------------------------------------------------------------------------------------------------ trampolines
def pure(m): return m.isPure()


@ob('C13', 'a call-back structure is needed when the class, or an accessible base at any depth, has an overridable virtual method; never for a final class')
def callback_needed(c):
    s = c.sum('is_callback_structure_needed', unstop=('is_callback_structure_needed',))
    impossible = C.isAbstract() & SOME(ds(), lambda m: pure(m) & call('is_const_overload', m), only='CXXMethodDecl')
    final = V(atom(mk('call', 'hasAttr<FinalAttr>', (u(C),))))
    own = SOME(ds(), lambda m: ~private(m) & call('is_bindable', m) & m.isVirtual() & ~dtor(m), only='CXXMethodDecl')
    inh = SOME(bs, ~(b.getAccessSpecifier() == AS['private']) & isrec & call('is_callback_structure_needed', R))
    c.cond(s.v, ~impossible & ~final & (own | inh), 'C13 C14', 'C13', 'a call-back structure is needed')


@ob('C13 C14', 'a call-back structure can be created only when every pure virtual method, in every base, can be overridden')
def callback_constructible(c):
    s = c.sum('is_callback_structure_constructible', unstop=('is_callback_structure_constructible',))
    own = SOME(ds(), lambda m: pure(m) & ~ctor(m) & (private(m) | ~call('is_bindable', m) | ~call('is_overloadable', m) | skip_fn(m)), only='CXXMethodDecl')
    inh = SOME(bs, isrec & IF(b.getAccessSpecifier() == AS['private'], R.isAbstract(), ~call('is_callback_structure_constructible', R)))
    c.cond(s.v, ~C.isAbstract() | (~own & ~inh), 'C13 C14', 'C13', 'a call-back structure can be created')


@ob('C13', 'a method can be overridden unless it takes a variable number of arguments')
def overloadable(c):
    s = c.sum('is_overloadable')
    c.cond(s.v, ~P('CXXMethodDecl').isVariadic(), 'C13', 'C13', 'the method can be overridden')


@ob('C13', 'call-back structure names are made of namespace and class')
def callback_name(c):
    s = c.sum('callback_structure_name')
    ns = call('replace_', C.namespace_from_named_decl(), '::', '_')
    c.text(s.v, call('mangle_type_name', 'PyCallBack_' + IF(ne(ns), ns + '_') + C.python_class_name(), False), 'C13 C11')


def overrides():
    m = each(ds())
    ret0 = out('fix_boolean_types', 0, call('standard_name', m.getReturnType()))
    comma = contains(ret0, ',')
    n = V(mk('carried', mk('p', 'int')))
    done = V(mk('carried', mk('p', 'set')))
    a = call('function_arguments_for_py_overload', m)
    key = m.getNameAsString() + '(' + get(a, 0) + IF(m.isConst(), ') const', ')')
    alias = '_binder_ret_' + tostr(n)
    ret = IF(comma, alias, ret0)
    fin = V(atom(mk('call', 'hasAttr<FinalAttr>', (u(m),))))
    est = m.getType().getExceptionSpecType()
    is_ = lambda n, k: est == enum('clang::EST_' + n, k)
    exc = IF(m.getType().isFunctionProtoType(), CASES((is_('DynamicNone', 1) | is_('Dynamic', 2), 'throw() '), (is_('None', 0) | is_('MSAny', 3) | is_('NoexceptFalse', 7), ''), S('noexcept ')))
    ns = C.namespace_from_named_decl()
    py = m.python_function_name()
    custom = call('is_custom_trampoline_function_requested', CONFIG, ns + IF(ne(ns), '::') + C.getNameAsString() + '::' + m.getNameAsString())
    body = S('\npybind11::gil_scoped_acquire gil;\npybind11::function overload = pybind11::get_overload(static_cast<const ', P('string'), ' *>(this), "', py,
             '");\nif (overload) {\n\tauto o = overload.operator()<pybind11::return_value_policy::reference>(', get(a, 1), ');\n\tif (pybind11::detail::cast_is_temporary_value_reference<', ret,
             '>::value) {\n\t\tstatic pybind11::detail::override_caster_t<', ret, '> caster;\n\t\treturn pybind11::detail::cast_ref<', ret, '>(std::move(o), caster);\n\t}\n\treturn pybind11::detail::cast_safe<', ret,
             '>(std::move(o));\n}\n')
    normal = S('override {', call('indent', body, '\t\t'), IF(pure(m), S('\t\tpybind11::pybind11_fail("Tried to call pure virtual function \\"', C.getNameAsString(), '::', py, '\\"");\n'),
               S('\t\treturn ', C.getNameAsString(), '::', m.getNameAsString(), '(', get(a, 1), ');\n')))
    cust = S('override {\n\t\treturn ', TAG('C05', custom), '<', C.getNameAsString(), ',', C.callback_structure_name(), '>(this, "', P('string'), '", "', m.getNameAsString(), '"', IF(ne(get(a, 1)), ', ' + get(a, 1)), ');\n')
    text = S(IF(comma, S('\tusing ', alias, ' = ', IF(begins(ret0, 'class '), substr(ret0, 6), ret0), ';\n')), '\t', ret, ' ', m.getNameAsString(), '(', get(a, 0), ')', IF(m.isConst(), ' const'), IF(m.getRefQualifier() == enum('clang::RQ_LValue', 1), ' &'), ' ', TAG('C13', exc),
             IF(ne(custom), cust, normal), '\t}\n')
    guards = [('C01 C13', ~private(m)), ('C02 C13', call('is_bindable', m)), ('C13', call('is_overloadable', m)), ('C03 C13', ~skip_fn(m)), ('C13', ~ctor(m)), ('C13', ~dtor(m)), ('C13', m.isVirtual()), ('C13', ~call('is_const_overload', m))]
    new = ~has_(done, key)
    return m, text, guards, new, fin, key, done, n, comma


@ob('C13', 'every overridable virtual method is overridden once, with its own return type, parameters, constness and exception specification, calling the Python override or else the C++ method; bases follow')
def trampoline_methods(c):
    s = c.sum('bind_member_functions_for_call_back', unstop=('bind_member_functions_for_call_back',))
    m, text, guards, new, fin, key, done, n, comma = overrides()
    own = FOR(ds(), IF(isa('CXXMethodDecl', m), EMIT(text, 'C13', *(guards + [('C13', new), ('C13', ~fin)]))))
    tail = FOR(bs, IF(isrec, EMIT(call('bind_member_functions_for_call_back', R, P('string'), done, n, V(mk('carried', mk('p', 'vector')))), 'C13', ('C01 C13', ~(b.getAccessSpecifier() == AS['private'])))))
    c.cmp.known = frozenset(t for t in subterms(u(own)) if t.op in ('indent', 'setat'))
    c.text(s.v, S(own, tail), 'C13')
    g = isa('CXXMethodDecl', m) & allof(*[x for _, x in guards]) & new
    # a method that cannot be overridden is not replaced by the one of a base class that it overrides
    kept = isa('CXXMethodDecl', m) & ~allof(*[x for _, x in guards]) & nn(m.size_overridden_methods())
    c.effects(s, {'insert'}, [('insert', (done, key), ((ds(), 1),), g | kept, 'C13', 'C13')], pc=cond(~ctor(m) & ~dtor(m)))
    c.effects(s, {'push_back'}, [('push_back', (V(mk('carried', mk('p', 'vector'))), m), ((ds(), 1),), g & ~fin, 'C13 C21', 'C21')])


@ob('C13 C18', 'the call-back structure derives from the class, inherits its constructors and overrides its virtual methods')
def trampoline(c):
    s = c.sum('ClassBinder::generate_prefix_code', stop={'generate_comment_for_declaration'})
    me = THIS('ClassBinder')
    q, n = CC.class_qualified_name(), CC.getNameAsString()
    head = S(CC.generate_comment_for_declaration(), 'struct ', CC.callback_structure_name(), ' : public ', q, ' {\n\tusing ', q, '::', n, ';\n\n')
    t = S(head, call('bind_member_functions_for_call_back', CC, q, V(EMPTY), 0, me.f('prefix_includes_')), '};\n\n')
    pre = s.field('prefix_code_')
    c.text(pre, IF(call('is_callback_structure_needed', CC), t, me.f('prefix_code_')), 'C13')
    for x in subterms(tot(pre)):
        if x.op == 'call' and x.a[0] == 'bind_member_functions_for_call_back':
            for y in x.a[1][2:4]: c.require(y.op != 'static', 'what was overridden in the call-back structure of one class is remembered for the next one (%s)' % show(y, 3), 'C13 C18', s.where())


# ------------------------------------------------------------------------------------------------ constructors
I = P('ConstructorBindingInfo')
T_ = I.f('T')
tp = params(T_)
k = P('unsigned int')


def note(F):
    inc = F.relevant_include()
    return S('\t// function-signature: ', F.function_qualified_name(True), '(', F.function_arguments(), ') file:', IF(ne(inc), substr(inc, 1, minus(num(inc), 2))), ' line:', F.line_number(), '\n')


@ob('C14 C15 C11', 'a constructor takes exactly the requested arguments; an abstract class is constructed through its call-back structure only')
def one_constructor(c):
    s = c.sum('bind_constructor', nparams=3)
    p_ = each(tp)
    full = (count(tp) == k) & ~T_.isVariadic()
    an = FOR(tp, IF(less(idx(tp), k), ', pybind11::arg("' + p_.getNameAsString() + '")'))
    a = call('function_arguments_for_lambda', T_, k)
    ps = IF(nn(k), get(a, 0))
    new = lambda cls: '[](' + ps + '){ return new ' + cls + '(' + get(a, 1) + '); }'
    cq, tq = I.f('class_qualified_name'), I.f('trampoline_qualified_name')
    lam = CASES((I.f('C').isAbstract(), S('\tcl.def( pybind11::init( ', new(tq), ' ), "doc");')), (V(tob(u(I.f('trampoline')))), S('\tcl.def( pybind11::init( ', new(cq), ', ', new(tq), ' ), "doc");')),
                S('\tcl.def( pybind11::init( ', new(cq), ' ), "doc" ', an, ');'))
    c.text(s.v, S(IF(nn(G('O_annotate_functions')), TAG('C22', note(T_))), IF(full, TAG('C11 C15', '\tcl.def( pybind11::init<', T_.function_arguments(), '>()', an, ' );\n'), TAG('C14 C15 C11', lam))), 'C14 C15 C11')
    c.effects(s, {'request_bindings'}, [('request_bindings', (p_.getOriginalType(), I.f('context')), ((tp, 1),), P('bool') & full & less(idx(tp), k), 'C07', 'C07')])


@ob('C15', 'one constructor binding per accepted number of arguments')
def constructor_defaults(c):
    s = c.sum('bind_constructor', nparams=1, stop={'bind_constructor'})
    p_ = each(tp)
    d = cond(p_.hasDefaultArg())
    first = V(ite(ex(tp, 1, d), engine.first('firstidx', tp, 1, d), size(rng_list(tp))))
    r = mk('irange', u(first), u(plus(count(tp), 1)))
    n = each(r)
    c.text(s.v, FOR(r, call('bind_constructor', I, n, count(tp) == n) + '\n'), 'C15')


@ob('C14', 'an abstract class is default-constructed as its call-back structure, any other as itself, with the call-back structure as alternative if there is one')
def default_constructor(c):
    s = c.sum('bind_default_constructor')
    cq, tq = I.f('class_qualified_name'), I.f('trampoline_qualified_name')
    new = lambda x: '[](){ return new ' + x + '(); }'
    an = IF(nn(G('O_annotate_functions')), IF(nn(T_), note(T_), S('\t// function-signature: ', cq, '()\n')))
    c.text(s.v, S(TAG('C22', an), TAG('C14', '\tcl.def( pybind11::init( ', CASES((I.f('C').isAbstract(), new(tq)), (V(tob(u(I.f('trampoline')))), new(cq) + ', ' + new(tq)), S(new(cq))), ' ) );\n')), 'C14')


@ob('C14', 'a copy constructor copies the call-back structure when there is one, and the class itself when that is public and concrete')
def copy_constructor(c):
    s = c.sum('bind_copy_constructor')
    cq, tq = I.f('class_qualified_name'), I.f('trampoline_qualified_name')
    quals = out('isCopyConstructor', 0, T_)
    cst = IF(quals == enum('clang::Qualifiers::Const', 1), ' const')
    new = lambda x: S('\tcl.def( pybind11::init( [](', x, cst, ' &o){ return new ', x, '(o); } ) );\n')
    tr = V(tob(u(I.f('trampoline'))))
    c.cmp.known = frozenset(t for t in subterms(s.v) if t.op in ('out',))
    quals_ = [t for t in subterms(s.v) if t.op == 'out' and t.a[0] == 'isCopyConstructor']
    if quals_: cst = IF(V(quals_[0]) == enum('clang::Qualifiers::Const', 1), ' const')
    c.text(s.v, S(IF(nn(G('O_annotate_functions')), TAG('C22', note(T_))),
                  CASES((tr & I.f('C').isAbstract(), TAG('C14', '\tcl.def(pybind11::init<', tq, cst, ' &>());\n')),
                        (tr, TAG('C14', new(tq), IF(public(T_), TAG('C01 C14', new(cq))))), TAG('C14', new(cq)))), 'C14')


# ------------------------------------------------------------------------------------------------ text form, nested classes, custom binders
@ob('C03 C04 C21', 'a class with an insertion operator gets a text form, unless it is skipped; the header of the operator is included')
def text_form(c):
    s = c.sum('ClassBinder::bind_repr')
    me = THIS('ClassBinder')
    q = CC.class_qualified_name()
    skip = lambda n: call('is_function_skipping_requested', CONFIG, n)
    F = call('global_insertion_operator', P('Context'), CC)
    ns = F.namespace_from_named_decl()
    g = [('C03', ~skip(q + '::__str__')), ('C03', ~skip(call('standard_name', CC.getQualifiedNameAsString() + '::__str__'))), ('C19 C04', nn(F))]
    c.text(s.v, EMIT(S('\n\tcl.def("__str__", [](', q, ' const &o) -> std::string { std::ostringstream s;', IF(ne(ns), S(' using namespace ', ns, ';')), ' s << o; return s.str(); } );\n'), 'C04', *g), 'C04')
    c.text(s.field('prefix_includes_'), S(me.f('prefix_includes_'), IF(allof(*[x for _, x in g]), ITEM(F))), 'C21')


def nested():
    """(element, loops, guard) of the public nested classes"""
    r = decls(CC)
    d = each(r)
    sp = each(cspecs_(d))
    return r, d, sp


@ob('C01 C02 C03 C04 C13 C21', 'every public nested class (and instantiation of a public nested template) is bound once, inside its parent, unless skipped')
def nested_classes(c):
    s = c.sum('ClassBinder::bind_nested_classes')
    r, d, sp = nested()
    if literal(s.v): return c.require(False, 'nested classes are not bound', 'C04', s.where(), sure=not s.E.opaque)
    ctx = P('Context')
    me = THIS('ClassBinder')
    def one(x, access):
        eff = IF(~x.isThisDeclarationADefinition() & x.hasDefinition(), x.getDefinition(), x)
        return eff, [('C01', access), ('C16 C08', x.isFirstDecl()), ('C02', call('is_bindable', eff)), ('C03', ~call('is_skipping_requested', eff, CONFIG))]
    c.cmp.known = frozenset({'mut', 'rec'})
    def code(eff, fieldname):
        return V(fld(mk('mut', 'bind', newbinder(c, s, u(eff)), (u(ctx),)), fieldname))
    def body(fieldname, nl, miss='C04 C13'):
        e1, g1 = one(d, public(d))
        e2, g2 = one(sp, public(d))
        return FOR(r, CASES((isa('CXXRecordDecl', d), EMIT(S(code(e1, fieldname), nl), miss, *g1)),
                            (isa('ClassTemplateDecl', d), FOR(cspecs_(d), EMIT(S(code(e2, fieldname), nl), miss, *g2))), S('')))
    t = body('code_', '\n')
    c.text(s.v, IF(ne(t), S('\n', t)), 'C04')
    c.text(s.field('prefix_code_'), S(me.f('prefix_code_'), body('prefix_code_', '')), 'C13')
    c.text(s.field('prefix_includes_'), S(me.f('prefix_includes_'), body('prefix_includes_', '', 'C21')), 'C21')


@ob('C07', 'the classes nested classes derive from are dependencies of the class that encloses them')
def nested_dependencies(c):
    s = c.sum('ClassBinder::bind_nested_classes')
    v = s.field('dependencies_')
    got = any(t.op == 'fld' and t.a[1] == 'dependencies_' and t.a[0].op == 'mut' for t in subterms(v)) or any(t.op == 'call' and t.a[0] == 'dependencies' for t in subterms(v))
    c.require(got, 'ClassBinder::bind_nested_classes drops the dependencies of the binders of nested classes', 'C07', s.where(), sure=not opaque(v))


def literal(t):
    """t is made of literal text only"""
    if t.op == 'ite': return literal(t.a[1]) and literal(t.a[2])
    if t.op == 'star': return literal(t.a[2])
    return all(x.op == 's' or x is not t and literal(x) for x in engine.pieces(t))


def newbinder(c, s, e):
    """a freshly made binder of e, as the analysis represents it"""
    for t in [x for v in [s.v] + [a for e in s.E.events for a in e.args if isinstance(a, T)] for x in subterms(v)]:
        if t.op == 'rec' and t.a[0].split('::')[-1] == 'ClassBinder':
            return mk('rec', t.a[0], tuple((n, e if n == 'C' else v) for n, v in t.a[1]))
    raise Missing('no nested binder is made')


@ob('C20', 'a class with a custom binder is bound by calling it with the module and the names of the template arguments')
def custom_binder(c):
    s = c.sum('ClassBinder::bind_with', stop={'generate_comment_for_declaration'})
    me = THIS('ClassBinder')
    a = elems(CC.getTemplateArgs())
    x = each(a)
    t = out('fix_boolean_types', 0, call('mangle_type_name', call('standard_name', x.template_argument_to_string()), True))
    c.text(s.field('code_'), S('\t', CC.generate_comment_for_declaration(), '\t', P('string'), call('standard_name', CC.template_specialization()), '(', MODULE(CC.namespace_from_named_decl()),
                               IF(isa('ClassTemplateSpecializationDecl', CC), FOR(a, S(', "', t, '"'))), ');\n\n'), 'C20')


def holder(q, K):
    own = S(', ', CONFIG.f('holder_type_'), '<', q, '>')
    d = K.getDestructor()
    return TAG('C14', IF(~call('is_inherited_from_enable_shared_from_this', K) & nn(d) & ~public(d), S(', ', q, '*'), own))


@ob('C14 C11 C23', 'a forward declaration names the class, its holder, its module and its Python name')
def forward_declaration(c):
    s = c.sum('bind_forward_declaration')
    q = C.class_qualified_name()
    inc = C.relevant_include()
    c.text(s.v, S('\t// Forward declaration for: ', q, ' file:', IF(ne(inc), substr(inc, 1, minus(num(inc), 2))), ' line:', C.line_number(), '\n\tpybind11::class_<', q, holder(q, C), '>(',
                  TAG('C23', MODULE(C.namespace_from_named_decl())), ', "', C.python_class_name(), '");\n\n'), 'C11')


OUTER = {'bind_constructor', 'bind_default_constructor', 'bind_copy_constructor', 'maybe_base_classes', 'bind_nested_classes', 'bind_repr', 'bind_with', 'generate_prefix_code', 'generate_comment_for_declaration'}


@ob('C20 C14 C13 C01 C02 C03 C04 C05 C11 C12 C23 C16', 'the code of a class: custom binder first; holder, call-back structure, bases, module, annotations, constructors, enums, members, template bases, text form, add-on, nested classes')
def class_code(c):
    s = c.sum('ClassBinder::bind', stop=OUTER)
    me, ctx = THIS('ClassBinder'), P('Context')
    K = CC
    q, qn = K.class_qualified_name(), call('standard_name', K.getQualifiedNameAsString())
    needed = call('is_callback_structure_needed', K)
    tramp = needed & call('is_callback_structure_constructible', K)
    named = ~K.isAnonymousStructOrUnion()
    ns = K.namespace_from_named_decl()
    inner = K.isCXXClassMember() & named
    module = IF(inner, 'enclosing_class', MODULE(ns))
    tname = IF(tramp, K.callback_structure_name())
    extra = S(TAG('C05', IF(call('is_module_local_requested', CONFIG, ns), ', pybind11::module_local()')), TAG('C05', IF(call('is_buffer_protocol_requested', CONFIG, qn), ', pybind11::buffer_protocol()')))
    got = s.field('code_')
    recs = [t.a[0] for t in subterms(got) if t.op == 'rec' and t.a[0].endswith('ConstructorBindingInfo')] or ['binder::ConstructorBindingInfo']
    info = lambda T: mk('rec', recs[0], (('C', u(K)), ('T', u(T)), ('trampoline', mk('b', cond(tramp))), ('class_qualified_name', u(q)), ('trampoline_qualified_name', u(tname)), ('context', u(ctx))))
    bindc = lambda fn, T: V(mk('call', fn, (info(T),)))
    dd = decls(K)
    d = each(dd)
    us = each(shadows(d))
    t = us.getTargetDecl()
    isdef = lambda x: x.isDefaultConstructor() & (count(params(x)) == 0)
    kind = lambda x: CASES((x.isCopyConstructor(), bindc('bind_copy_constructor', x)), (isdef(x), bindc('bind_default_constructor', x)), bindc('bind_constructor', x))
    ctors = FOR(dd, IF(isa('CXXConstructorDecl', d), EMIT(kind(d), 'C04', ('C01', public(d)), ('C02', ~d.isMoveConstructor()), ('C02', call('is_bindable', d)), ('C03', ~skip_fn(d)))))
    kind2 = lambda x: IF(isdef(x), bindc('bind_default_constructor', x), bindc('bind_constructor', x))
    inh = FOR(dd, IF(isa('UsingDecl', d), FOR(shadows(d), IF(isa('UsingShadowDecl', us) & isa('CXXConstructorDecl', t),
              EMIT(kind2(t), 'C04', ('C01', public(d)), ('C01', public(t)), ('C02', call('is_bindable', t)), ('C03', ~skip_fn(t)), ('C02', ~t.isCopyConstructor()))))))
    hasdef = SOME(dd, lambda x: x.isDefaultConstructor(), only='CXXConstructorDecl') | SOME(dd, isa('UsingDecl', d) & public(d) & SOME(shadows(d), isa('UsingShadowDecl', us) & isa('CXXConstructorDecl', t) & t.isDefaultConstructor()))
    implicit = EMIT(bindc('bind_default_constructor', None), 'C04', ('C04', ~hasdef), ('C14', K.needsImplicitDefaultConstructor()), ('C14', call('base_default_default_constructor_available', K)))
    makers = IF(named, EMIT(S(implicit, ctors, inh), 'C04', ('C14', ~K.isAbstract() | tramp)))
    enums = FOR(dd, IF(isa('EnumDecl', d), EMIT(S('\n', call('bind_enum', 'cl', d)), 'C04', ('C01', public(d)), ('C02', call('is_bindable', d)), ('C03', ~call('is_skipping_requested', d, CONFIG)))))
    hold = holder(q, K)
    cls = IF(named, S(TAG('C05', IF(call('is_smart_holder_requested', CONFIG, qn), S('\tPYBIND11_TYPE_CASTER_BASE_HOLDER(', q, ' ', hold, ')\n'))),
                      '\tpybind11::class_<', q, hold, TAG('C13', IF(tramp, S(', ', K.callback_structure_name()))), call('maybe_base_classes', me, ctx), '> cl(', TAG('C23', module), ', "', K.python_class_name(), '", "',
                      TAG('C12', K.generate_documentation_string_for_declaration()), '"', extra, ');\n'))
    addon = CONFIG.f('add_on_binders_')
    code = S('{ ', K.generate_comment_for_declaration(), IF(inner, '\tauto & enclosing_class = cl;\n'), cls, makers, enums, TAG('C04', call('binding_public_data_members', K)),
             TAG('C04', call('binding_public_member_functions', K, needed, tramp, ctx)), TAG('C04', call('binding_template_bases', K, needed, tramp, ctx)), TAG('C04', call('bind_repr', me, ctx, CONFIG)),
             TAG('C20 C05', IF(has_(addon, qn), S('\n\t', at_(addon, qn), '(cl);\n'))), TAG('C04', call('bind_nested_classes', me, ctx)), '}\n')
    want = call('indent', code, '\t')
    ext = CONFIG.f('binders_')
    c.cmp.known = frozenset(t for t in subterms(got) if t.op in ('indent', 'rec'))
    pc = ~bound(me)
    fit = call('is_bindable', K) & ~V(tob(u(me.f('skipping_requested_'))))        # asserted
    c.effects(s, {'bind_with'}, [('bind_with', (me, at_(ext, qn), ctx), (), pc & has_(ext, qn), 'C20 C05', 'C20')])
    c.effects(s, {'generate_prefix_code'}, [('generate_prefix_code', (me,), (), pc & ~has_(ext, qn) & tramp, 'C13', 'C13')], pc=fit)
    c.text(got, want, 'C04 C11', pc=pc & fit & ~has_(ext, qn))
    c.text(got, me.f('code_'), 'C16', pc=~pc)


# ------------------------------------------------------------------------------------------------ includes
@ob('C21', 'the headers of a class, its template arguments, its instantiated method templates and (near the top) its methods are included')
def class_includes(c):
    s = c.sum('add_relevant_includes', 'CXXRecordDecl')
    inc, lvl = P('IncludeSet'), P('int')
    new = include_once(C, lvl)
    d = each(ds())
    sp = each(specs_(d))
    kindis = lambda n, v: arg.getKind() == TA(n, v)
    l1 = plus(lvl, 1)
    ta = new & spec_
    sps = [('add_relevant_include_for_decl', (C, inc), (), new, 'C21', 'C16'),
           ('add_relevant_includes', (arg.getAsType().getDesugaredType(C.getASTContext()), inc, l1), ((args_, 1),), ta & kindis('Type', 1), 'C21', 'C16'),
           ('add_relevant_include_for_decl', (arg.getAsTemplate().getAsTemplateDecl().getTemplatedDecl(), inc), ((args_, 1),), ta & kindis('Template', 5), 'C21', 'C19'),
           ('add_relevant_include_for_decl', (arg.getAsDecl(), inc), ((args_, 1),), ta & kindis('Declaration', 2), 'C21', 'C19'),
           ('add_relevant_includes', (arg.getIntegralType(), inc, l1), ((args_, 1),), ta & kindis('Integral', 4), 'C21', 'C19'),
           ('add_relevant_includes', (sp, inc, l1), ((ds(), 1), (specs_(d), 1)), new & isa('FunctionTemplateDecl', d) & isa('CXXMethodDecl', sp) & public(sp) & call('is_bindable', sp) & ~skip_fn(sp) & ~ctor(sp) & ~dtor(sp), 'C21', 'C16'),
           ('add_relevant_includes', (d, inc, l1), ((ds(), 1),), new & less(lvl, 2) & isa('CXXMethodDecl', d) & public(d) & call('is_bindable', d) & ~dtor(d), 'C21', 'C16')]
    c.effects(s, {'add_relevant_include_for_decl', 'add_relevant_includes'}, sps)


@ob('C21 C18', 'remembered headers of a class are those a fresh computation yields')
def class_includes_cached(c):
    s = c.sum('add_relevant_includes_cached')
    inc = P('IncludeSet')
    calls = [e for e in s.E.events if e.fn == 'add_relevant_includes' and e.args and e.args[0] is u(C)]
    c.require(bool(calls), 'the headers of the class are not computed', 'C21 C18', s.where(), sure=not s.E.opaque and not any(e.fn.startswith('add_relevant') for e in s.E.events))
    for e in calls: c.require(len(e.args) < 3 or not (e.args[2].op == 'int' and e.args[2].a[0] > 1), 'the headers of the methods of the class are not computed: the level is %s' % show(e.args[-1]), 'C21', s.where())
    calls = [e for e in calls if e.args[1].op == 'rec']
    if not calls: return
    X = fld(mk('out', 'add_relevant_includes', 1, tuple(calls[0].args)), 'includes_')
    c.cmp.known = frozenset(subterms(X))
    r = elems(X)
    want = S(inc.f('includes_'), FOR(r, ITEM(each(r))))
    raw = engine.substitute(s.E.field(s.st, mk('p', 'IncludeSet'), 'includes_'), s.carry) if s.carry else s.E.field(s.st, mk('p', 'IncludeSet'), 'includes_')
    c.text(fresh(raw, s.memos), want, 'C21')
    for S_, entries in s.memos.items():
        for k, val, pc, e in entries:
            c.require(k is u(C), 'the headers are remembered under %s' % show(k, 4), 'C18 C21', s.where(), sure=not opaque(k))
            if k is not u(C): continue
            v = engine.substitute(strfold.put(raw, {atom_term(x): TRUE for x in support(has(S_, k))}), {at(S_, k): val})
            c.cmp.known |= frozenset(subterms(mk('b', has(S_, k))))
            c.text(v, want, 'C18 C21', pc=has(S_, k))


@ob('C21 C05', 'headers named by directive for the class, of nested classes, of methods in the call-back structure and of the class itself are included')
def class_binder_includes(c):
    s = c.sum('ClassBinder::add_relevant_includes')
    me, inc = THIS('ClassBinder'), P('IncludeSet')
    qn = call('standard_name', CC.getQualifiedNameAsString())
    ci = CONFIG.f('class_includes_')
    r = elems(at_(ci, qn))
    i = each(r)
    ann = V(tob(u(G('O_annotate_includes'))))
    pi = elems(me.f('prefix_includes_'))
    nr, nd, nsp = nested()
    def binder(x):
        try: return [('add_relevant_includes', (V(newbinder(c, s, u(x))), inc))]
        except Missing: return []
    c.text(s.pfield('IncludeSet', 'includes_'), S(inc.f('includes_'), TAG('C21 C05', IF(has_(ci, qn), FOR(r, ITEM(i + IF(ann, ' // +include_for_class'))))), ITEM('<sstream> // __str__')), 'C21')
    c.effects(s, {'add_relevant_includes'}, [('add_relevant_includes', (each(pi), inc, 0), ((pi, 1),), V(TRUE), 'C21', 'C21'),
                                             ('add_relevant_includes', (CC, inc, 0), (), V(TRUE), 'C21', 'C21')] +
              [x + (((nr, 1),), isa('CXXRecordDecl', nd) & public(nd), 'C21', '') for x in binder(nd)] +
              [x + (((nr, 1), (cspecs_(nd), 1)), isa('ClassTemplateDecl', nd) & ~isa('CXXRecordDecl', nd) & public(nd), 'C21', '') for x in binder(nsp)])
    if not binder(nd): c.require(False, 'the headers of nested classes are not included', 'C21', s.where(), sure=not s.E.opaque)
