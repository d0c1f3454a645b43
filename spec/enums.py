"""Enumerations."""
from check import *
from functions import request_flags, bound, include_once

E_ = P('EnumDecl')
ns = E_.namespace_from_named_decl()
name = E_.getNameAsString()
qn = E_.getQualifiedNameAsString()


@ob('C21', 'the headers declaring and defining an enumeration are included')
def enum_includes(c):
    s = c.sum('add_relevant_includes', 'EnumDecl')
    inc = P('IncludeSet')
    new = include_once(E_, P('int'))
    d = E_.getDefinition()
    c.effects(s, {'add_relevant_include_for_decl'}, [('add_relevant_include_for_decl', (E_, inc), (), new, 'C21', 'C16'), ('add_relevant_include_for_decl', (d, inc), (), new & nn(d), 'C21', 'C16')])


@ob('C02 C04', 'an enumeration is bindable when it has a name')
def bindable_enum(c):
    s = c.sum('is_bindable', 'EnumDecl')
    c.conj(s.v, [('C02', ~E_.isCXXInstanceMember()), ('C02', ne(name)), ('C02', ~contains(name, ')'))], 'C04', 'the enumeration is bindable')


@ob('C02 C04', 'an enumeration is bound only when bindable and not banned')
def enum_binder(c):
    me = THIS('EnumBinder').f('E')
    c.conj(c.sum('EnumBinder::bindable').v, [('C02', call('is_bindable', me)), ('C02', ~call('is_banned_symbol', me))], 'C04', 'the enumeration is bindable')
    c.text(c.sum('EnumBinder::id').v, me.getQualifiedNameAsString(), 'C11 C07')


@ob('C04', 'an enumeration is requested by its name or its namespace')
def enum_requested(c):
    c.cond(c.sum('is_binding_requested', 'EnumDecl').v, call('is_enum_binding_requested', CONFIG, qn) | call('is_namespace_binding_requested', CONFIG, ns), 'C04', what='the enumeration is requested')


@ob('C03', 'a directive on an enumeration wins over one on its namespace')
def enum_skipped(c):
    s = call('standard_name', qn)
    c.cond(c.sum('is_skipping_requested', 'EnumDecl').v, CASES((call('is_enum_skipping_requested', CONFIG, s), V(TRUE)), (call('is_enum_binding_requested', CONFIG, s), V(FALSE)),
                                                               call('is_namespace_skipping_requested', CONFIG, ns)), 'C03', what='the enumeration is skipped')


@ob('C03 C04', 'a skip request on an enumeration is recorded, otherwise a binding request is')
def enum_request(c): request_flags(c, 'EnumBinder', 'E')


en = R('enumerator', E_)


@ob('C24 C11 C12 C05', 'every enumerator is bound under its name to its value; arithmetic is allowed for unscoped enumerations, values are exported unless it is declared enum class')
def enum_code(c):
    s = c.sum('bind_enum', nparams=2)
    e = each(en)
    scoped = E_.isScoped()
    vals = FOR(en, '\t\t.value("' + e.getNameAsString() + '", ' + e.getQualifiedNameAsString() + ')\n')
    head = S('\tpybind11::enum_<', qn, '>(', TAG('C11 C23', P('string')), ', "', name, '"', TAG('C24', IF(scoped, '', ', pybind11::arithmetic()')), ', "', TAG('C12', E_.generate_documentation_string_for_declaration()), '"',
             TAG('C05', IF(call('is_module_local_requested', CONFIG, ns), ', pybind11::module_local()')), ')\n')
    tail = IF(E_.isScopedUsingClassTag(), ';\n\n', '\n\t\t.export_values();\n\n')
    c.text(s.v, V(engine.chop(u(head + vals))) + TAG('C24', tail), 'C24 C11')


@ob('C11 C16 C23', 'the code of an enumeration is a comment naming it and the binding on the module of its namespace')
def enum_bind(c):
    s = c.sum('EnumBinder::bind')
    me = THIS('EnumBinder')
    e = me.f('E')
    code = S('\t', e.generate_comment_for_declaration(), call('bind_enum', 'M("' + e.namespace_from_named_decl() + '")', e), ';\n\n')
    c.text(s.field('code_'), IF(bound(me), me.f('code_'), code), 'C11 C16 C23')
