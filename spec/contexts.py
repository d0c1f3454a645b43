"""The generator: collecting, requesting, ordering, distributing over files, module tree."""
from check import *
import json, re, strfold

T_ = THIS('Context')
BINDERS = T_.f('binders')
RB = elems(BINDERS)
b = each(RB)
sp = P('shared_ptr')
bound = lambda x: ne(x.f('code_')) | call('is_python_builtin', x.named_decl())
REQ, SKIPF = 'binding_requested_', 'skipping_requested_'


@ob('C04 C16 C08', 'each entity is registered once, at the end of the list, and types are found again under their name')
def register(c):
    s = c.sum('Context::add')
    new = ~has_(T_.f('ids'), sp.id())
    c.effects(s, {'push_back', 'insert', 'emplace_back'}, [
        ('push_back', (BINDERS, sp), (), new, 'C04', 'C16')], ignore=lambda k: k[0] == 'insert')
    # adding to a set what it holds changes nothing
    ids = s.field('ids')
    c.text(ids, S(T_.f('ids'), ITEM(sp.id())), 'C16 C04', pc=new)
    if engine.simp(ids, ~cond(new)) is not u(S(T_.f('ids'), ITEM(sp.id()))): c.text(ids, T_.f('ids'), 'C16 C04', pc=~new)
    t = sp.named_decl()
    c.text(s.field('types'), S(T_.f('types'), IF(new & isa('TypeDecl', t), V(mk('kv', u(t.typename_from_type_decl()), u(sp))))), 'C07 C04')


@ob('C04', 'the insertion operators of the input are kept under the pointer type that tells them apart')
def insertion_operators(c):
    s = c.sum('Context::add_insertion_operator')
    F = P('FunctionDecl')
    c.text(s.field('insertion_operators'), S(T_.f('insertion_operators'), V(mk('kv', u(F.function_pointer_type()), u(F)))), 'C04 C11')


@ob('C04', 'the insertion operator of a class is the one that takes a reference to const to exactly this class, or the template form of it')
def insertion_operator(c):
    s = c.sum('Context::global_insertion_operator')
    C = P('CXXRecordDecl')
    ops = T_.f('insertion_operators')
    k1 = S('std::ostream & (*)(std::ostream &, const ', IF(C.isStruct(), 'struct ', 'class '), C.class_qualified_name(), ' &)')
    plain = has_(ops, k1)
    c.text(s.v, at_(ops, k1), 'C04 C11', pc=plain)
    c.cond(eq(s.v, NULL), V(TRUE), 'C04 C11', what='no operator found', pc=~plain & ~isa('ClassTemplateSpecializationDecl', C))
    # Clang prints the operator of a template with the places of its parameters
    for n in (1, 3):
        v = strfold.unroll(s.v, elems(C.getTemplateArgs()), n, {})
        k2 = S('std::ostream & (*)(std::ostream &, const ', C.getNameAsString().standard_name(), '<', ', '.join('type-parameter-0-%d' % i for i in range(n)), '>')
        for form in (S(k2, ' &)'), S(out('fix_boolean_types', 0, k2), ' &)'), out('fix_boolean_types', 0, S(k2, ' &)'))):
            if any(x is u(form) for x in subterms(v)):
                k2 = form
                break
        else: k2 = S(out('fix_boolean_types', 0, k2), ' &)')
        c.text(v, IF(has_(ops, k2), at_(ops, k2), V(NULL)), 'C04 C11', pc=~plain & isa('ClassTemplateSpecializationDecl', C))


@ob('C07 C16', 'a class counts as registered under its qualified name, and one built into Python needs no registration')
def registered_classes(c):
    C = P('CXXRecordDecl')
    s = c.sum('Context::is_forward_needed')
    c.cond(s.v, ~has_(T_.f('binded'), C.class_qualified_name()) & ~call('is_python_builtin', C), 'C07 C16')
    s = c.sum('Context::add_to_binded')
    c.text(s.field('binded'), S(T_.f('binded'), ITEM(C.class_qualified_name())), 'C07 C16')


@ob('C23', 'every namespace with generated code is created, with all namespaces around it, parents first')
def namespaces(c):
    s = c.sum('Context::create_all_nested_namespaces')
    v = s.v
    ordered = 'std::set<' in s.f.get('rt', '')
    if isinstance(v, T) and v.op == 'setof': v, ordered = v.a[0], True
    ns = b.named_decl().namespace_from_named_decl()
    chain = mk('iter', u(ns), mk('call', 'base_namespace', (mk('hole'),)), mk('b', nonempty(mk('hole'))))
    c.text(v, FOR(RB, IF(ne(b.f('code_')), V(star(chain, 1, mk('item', elem(chain, 1)))))), 'C23')
    c.require(ordered, 'the namespaces are not an ordered set of names: a namespace may come before the one around it', 'C23 C08', s.where(), sure=False)


@ob('C23', 'the module of a namespace is looked up by the name of the namespace')
def module_of_namespace(c):
    c.text(c.sum('Context::module_variable_name').v, S('M("', P('string'), '")'), 'C23')


@ob('C07 C03 C02', 'a type used by a bound entity is requested when it is known, not yet bound, bindable, not skipped and not built in')
def request_type(c):
    s = c.sum('Context::request_bindings')
    t = P('string')
    x = at_(T_.f('types'), t)
    got, site = s.effects({'request_bindings'})
    g = FALSE
    for (n, a, l), pc in got.items():
        if a and a[0] is u(x): g = g | pc
    c.conj(g, [('C07', has_(T_.f('types'), t)), ('C16', ~ne(x.f('code_'))), ('C02', x.bindable()), ('C03', ~nn(x.f(SKIPF))), ('C02', ~call('is_python_builtin', x.named_decl()))], 'C07 C04', 'the type is requested')


def loops_of(s, e):
    """the enumerations around an event, and the condition relative to loops that repeat until nothing changes"""
    pc, l = e.pc, []
    for r in e.loops:
        if r[0] in s.E.whiles: pc = constrain(pc, s.E.whiles[r[0]][0])
        else: l.append(r)
    return tuple(l), pc


@ob('C04 C03', 'an entity is one of a system header exactly when it is declared in one')
def system_header(c):
    s = c.sum('Binder::is_in_system_header', unstop=('is_in_system_header',))
    v = s.v.a[0] if isinstance(s.v, T) and s.v.op == 'b' else s.v
    b = asb(v)
    at = [atom_term(x) for x in support(b)]
    where = [y for x in at for y in subterms(x) if y.op == 'call' and y.a[0] == 'getLocation']
    c.require(b is not TRUE and b is not FALSE, 'whether an entity is declared in a system header is not looked at', 'C04 C03', s.where())
    if len(at) == 1 and at[0].op == 'call' and at[0].a[0] == 'isInSystemHeader' and len(where) == 1:
        c.require(b is asb(at[0]), 'an entity counts as one of a system header when it is not', 'C04 C03', s.where())
    else: c.require(False, 'an entity is one of a system header when %s' % show(v, 6), 'C04 C03', s.where(), sure=False)


@ob('C03 C04 C02 C16 C07', 'every bindable entity is asked for requests (entities of system headers only for skips); passes over all entities go on until nothing new is bound, each entity bound once')
def bind_all(c):
    s = c.sum('Context::bind')
    W = s.E.whiles
    ask, skiponly, bindg, bindpc, whiles, strange = FALSE, FALSE, FALSE, FALSE, set(), []
    for e in s.E.events:
        if e.kind != 'call' or e.fn not in ('request_bindings_and_skipping', 'bind'): continue
        l, pc = loops_of(s, e)
        if l != ((RB, 1),) or e.args[0] is not u(b):
            strange.append(e)
            continue
        c.where = '%s:%d' % (os.path.relpath(e.file, facts.REPO), e.line)
        if e.fn == 'bind':
            bindg = bindg | pc
            whiles |= {r[0] for r in e.loops if r[0] in W}
        else:
            f = e.args[2] if len(e.args) > 2 else mk('int', 3)
            if f.op == 'ite': parts = [(f.a[1], pc & f.a[0]), (f.a[2], pc & ~f.a[0])]
            else: parts = [(f, pc)]
            for f, g in parts:
                v = f.a[0] if f.op == 'int' else f.a[1] if f.op == 'enum' else None
                if v == 3: ask = ask | g
                elif v == 1: skiponly = skiponly | g
                else: strange.append(e)
    if strange: raise Missing('an operation of the generation loop was not recognised')
    c.cond(ask, b.bindable() & ~b.is_in_system_header(), 'C02 C03', 'C04', 'an entity is asked for binding and skipping requests')
    c.cond(skiponly, b.bindable() & b.is_in_system_header(), 'C03 C04', 'C03', 'an entity of a system header is asked for skip requests')
    todo = b.bindable() & ~bound(b) & nn(b.f(REQ))
    c.conj(bindg, [('C02', b.bindable()), ('C16', ~ne(b.f('code_'))), ('C16 C02', ~call('is_python_builtin', b.named_decl())), ('C04 C03', nn(b.f(REQ)))], 'C04 C07', 'the entity is bound')
    # another pass after each pass that bound something
    c.require(bool(whiles), 'the entities are bound in a single pass: what binding one entity requests of an earlier one is never bound', 'C07 C04', s.where())
    for w in whiles:
        cond_, iv, early = W[w]
        again = substitute(cond_, {lv: z if isinstance(z, (T, B)) else lv for lv, (k, a, z) in iv.items()})
        some = ex(RB, 1, cond(todo))
        c.cmp.known = frozenset()
        if early: raise Missing('the generation loop leaves in between')
        c.cond(asb(again), V(some), 'C16', 'C07 C04', 'another pass follows')


@ob('C21 C05 C08', 'every header a file needs is included once, in order of its name, unless skipped')
def include_directives(c):
    s = c.sum('generate_include_directives', unstop=('generate_include_directives',))
    inc = P('IncludeSet').f('includes_')
    rs = {x.a[0] for x in subterms(s.v) if x.op == 'star'}
    if len(rs) != 1: raise Missing('not one loop over the headers')
    r = rs.pop()
    l = u(inc)
    if r.op == 'sorted' or 'sorted' in str(r): pass
    elif r is rng(l): c.require(False, 'headers are included in the order in which they were found, and more than once', 'C21', s.where(), not any(x in str(s.f) for x in ('std::set<', 'std::map<', 'sort')))
    if not any(x is l for x in subterms(r)): raise Missing('the headers come from somewhere else')
    c.text(s.v, FOR(r, lambda x: IF(~CONFIG.is_include_skipping_requested(x), S('#include ', x, '\n'))), 'C21 C05')


@ob('C22 C16', 'a trace line names the entity about to be bound and carries a new number')
def trace_lines(c):
    s = c.sum('Context::trace_line')
    n = T_.f('trace_counter')
    got = s.field('trace_counter')
    c.cmp.known = frozenset({u(n)})
    num_ = [x for x in subterms(s.v) if x.op == 'tostr']
    if len(num_) != 1: raise Missing('not one number')
    c.text(s.v, S('\tstd::cout << "B', V(num_[0]), '_[', P('string'), ']" << std::endl;\n'), 'C22')
    c.require(got is u(plus(n, 1)), 'the number of a trace line does not grow by one', 'C22', s.where(), sure=not opaque(got))
    c.require(num_[0].a[0] in (got, u(n)), 'the number of a trace line is %s' % show(num_[0], 4), 'C22', s.where(), sure=not opaque(num_[0]))


@ob('C10 C09 C08', 'the name of a generated file derives from the header of the entity, and holds no dots, so that it stays below the output prefix')
def file_stem(c):
    s = c.sum('file_name_prefix_for_binder', unstop=('file_name_prefix_for_binder',))
    t, dots = s.v, False
    n = 0
    while isinstance(t, T) and t.op == 'out' and t.a[0] == 'replace' and t.a[1] == 0:
        x, f, r = t.a[2]
        n += 1
        if r.op != 's': raise Missing('a replacement is not known')
        if '.' in r.a[0]: break
        if f.op == 's' and f.a[0] == '.':
            dots = True
            break
        t = x
    c.require(dots, 'dots stay in the names of generated files', 'C10 C09', s.where(), sure=n > 0)
    c.require(any(x is u(call('relevant_include', P('shared_ptr').named_decl())) for x in subterms(s.v)), 'the name does not derive from the header of the entity', 'C09', s.where(), sure=False)
    d = P('shared_ptr').named_decl()
    for inc in ('<some-dir/my header+1.v2.hpp>', '"a@b,c(d)/x~y.hh"', '<a=%s.h>'):
        for ns in ('', 'n::m', 'std', 'std::chrono'):
            r = strfold.put(s.v, {u(call('relevant_include', d)): mk('s', inc), u(d.namespace_from_named_decl()): mk('s', ns)})
            ok = r.op == 's' and re.fullmatch(r'[A-Za-z0-9_/]*', r.a[0]) and r.a[0]
            c.require(ok, 'the bindings of an entity declared in %s are put in a file named %s, and in a function of that name' % (inc, show(r, 4)), 'C09 C10', s.where(), sure=r.op == 's')



@ob('C04 C07', 'what is requested is bound, and the binders are put in order, before files are written')
def generation_order(c):
    s = c.sum('Context::generate', 'Config', stop=('bind', 'sort_binders', 'create_all_nested_namespaces', 'file_name_prefix_for_binder', 'generate_include_directives', 'trace_line'))
    E = s.E
    up = [e for e in E.events if e.fn == 'update_source_file' and e.loops]
    if not up: raise Missing('no files are written')
    first = min(e.seq for e in E.events if e.loops and e.loops[0][0] is up[0].loops[0][0])
    calls = lambda n: [f for f in c.F.functions.values() if ('Context::%s"' % n) in json.dumps(f.get('body'))]
    at = {}
    for n, prop, what in (('bind', 'C04', 'the bindings are generated'), ('sort_binders', 'C07', 'the binders are put in order')):
        es = [e for e in E.events if e.fn == n and e.kind == 'call' and not e.loops]
        if not es:
            c.require(False, 'files are written although it is nowhere that ' + what, prop, s.where(), not calls(n) and not E.opaque)
            raise Missing('no call of ' + n)
        at[n] = es[0].seq
        c.require(es[0].seq < first, 'files are written before ' + what, prop, s.where())
        c.require(sat(up[0].pc & ~es[0].pc) is None, 'files are written although it is not always that ' + what, prop, s.where(), not opaque(mk('b', es[0].pc)))
    c.require(at['bind'] < at['sort_binders'], 'the binders are put in order before the bindings are generated', 'C07', s.where(), False)


@ob('C07 C16', 'binders are put in order: whenever a class comes before a class it depends on, that one is moved before it and the order is examined anew')
def sorting(c):
    owners = {f['fn'].split('::')[-1] for f in c.F.functions.values() if len(f['params']) == 1 and 'CXXRecordDecl' in f['params'][0]['t'] and (f.get('rt') or '') == f['params'][0]['t']}
    s = c.sum('Context::sort_binders', stop=owners)
    E = s.E
    rot = [e for e in E.events if e.fn == 'rotate']
    if not rot:
        # nothing else that could move a binder
        moves = [e for e in E.events if e.kind in ('call', 'insert', 'store', 'erase', 'assign') and e.fn not in ('named_decl', 'dependencies') and
                 any(contains_term(x, u(BINDERS)) for a in e.args[:2] for x in [mk('b', a) if isinstance(a, B) else a] if isinstance(x, T)) and e.fn not in owners | {'class_qualified_name', 'is_python_builtin', 'errs', 'outs'}
                 and not (e.kind == 'store' and e.args[1] is mk('s', 'binded')) and not (e.kind == 'insert' and e.args[0].op == 'lv')]
        c.require(False, 'binders are never moved in front of others', 'C07', s.where(), not moves and not E.opaque)
    if len(rot) != 1 or len(rot[0].loops) != 3: raise Missing('binders are not ordered by rotation')
    e = rot[0]
    W, RD = e.loops[0][0], e.loops[2][0]
    if W not in E.whiles or e.loops[1] != (RB, 1): raise Missing('binders are not ordered by repeated passes')
    x = each(RB)
    if RD is not elems(x.dependencies()): raise Missing('the dependencies were not recognised')
    d = each(RD)
    known = {y for y in subterms(e.pc) if y.op == 'lv'} | {y for a in e.args for y in subterms(a) if y.op == 'from'} | {y for y in subterms(e.pc) if y.op == 'from'}
    c.cmp.known = frozenset(known)
    found = e.args[1]
    for a, what in ((e.args[0], 'the binder examined'), (found, 'that of the class it depends on')):
        if a.op == 'advance' and a.a[1].op == 'int': k, m = a.a[1].a[0], {a.a[0]: 1}
        elif a.op == 'lin': k, m = engine.lin_of(a)
        else: continue
        if k and list(m.values()) == [1] and list(m)[0].op in ('first', 'elem'): c.require(False, 'the rotation takes the binder %+d places off %s' % (k, what), 'C07 C16', s.where())
    ok = found.op == 'first' and found.a[0].op == 'range' or found.op == 'first'
    if not ok: raise Missing('the binder of a dependency is not looked for: ' + show(found, 3))
    y = V(elem(found.a[0], found.a[1]))
    # binders are those of classes no other class encloses
    named = [t for t in subterms(mk('b', found.a[2])) if t.op == 'call' and t.a[0] in owners and t.a[1] == (u(d),)]
    around = any(t.op == 'call' and t.a[0] in ('getDeclContext', 'getParent', 'getLexicalDeclContext', 'getOuterLexicalRecordContext') for t in subterms(mk('b', found.a[2])))
    c.require(named or around, 'the binder of a class nested in another one is looked for under the nested class: only outermost classes have binders', 'C07', s.where(), sure=not opaque(mk('b', found.a[2]), frozenset(known)))
    if not named and around: raise Missing('the enclosing class was not recognised')
    if named:
        d = V(named[0])
        o = c.sum(named[0].a[0], stop=owners)
        k = P('CXXRecordDecl')
        forms = [u(IF(isa('CXXRecordDecl', q), call(named[0].a[0], q), k)) for q in (k.getDeclContext(), k.getParent())]
        c.require(o.v in forms, 'the class whose binder defines a class is %s' % show(o.v, 5), 'C07', o.where(), sure=not opaque(o.v))
        c.where = s.where()
    c.cond(found.a[2], isa('CXXRecordDecl', y.named_decl()) & (d == y.named_decl()), 'C07', what='a binder is that of the dependency', pc=V(tob(u(d))))
    c.require(e.args[0] is u(x), 'the rotation starts at %s' % show(e.args[0], 4), 'C07', s.where(), sure=not opaque(e.args[0], frozenset(known)))
    # registered so far: a set that starts empty with each pass
    sets = {t.a[0] for v in support(e.pc) for t in subterms(atom_term(v)) if t.op == 'has' and t.a[0].op == 'lv'}
    if not sets:
        stops = [x for x in E.events if x.kind in ('exit', 'throw') and len(x.loops) == 3 and any(atom_term(v).op == 'eq' and any(z.op == 'end' for z in atom_term(v).a) for v in support(x.pc))]
        for x in stops:
            c.require(False, 'generation stops at a class although the one it depends on was registered before', 'C07 C16', s.where(),
                      not any(opaque(atom_term(v), frozenset(known) | {z for z in subterms(atom_term(v)) if z.op == 'lv'}) for v in support(x.pc)))
    if len(sets) != 1: raise Missing('no set of classes registered so far')
    st = sets.pop()
    info = [(i, m) for i, (r, dd, m) in E.loopinfo.items() if st in m]
    for i, m in info: c.require(m[st][0] is EMPTY or m[st][0] is mk('nil'), 'a pass over the binders starts with classes registered in an earlier one: %s' % show(m[st][0], 4), 'C07', s.where(), sure=m[st][0].op in ('lv', 'fld', 'f') or not opaque(m[st][0]))
    end = [a for v in support(e.pc) for a in subterms(atom_term(v)) if a.op == 'eq' and any(z.op == 'end' for z in a.a)]
    if not end: raise Missing('the search for the dependency is not examined')
    # other registrations
    stray = [v for v in support(e.pc) if atom_term(v).op == 'lv']
    p = e.pc
    for v in stray: p = cofactor(p, v, True) | cofactor(p, v, False)
    want = isa('CXXRecordDecl', x.named_decl()) & ~has_(V(st), call('class_qualified_name', d)) & ~call('is_python_builtin', d) & ~V(atom(end[0]))
    c.cond(p, want, 'C07 C16', 'C07', 'a binder is moved behind the class it depends on')
    # then again
    flags = [(lv, a) for i, (r, dd, m) in E.loopinfo.items() if r is RD for lv, (_, a) in m.items() if isinstance(a, B)]
    lastf = flags[-1:] if flags else []
    if not lastf:
        more, lvs, _ = E.whiles[W][:3]
        again = substitute(asb(more), {lv: a for lv, (k, b0, a) in lvs.items() if isinstance(a, (T, B))})
        c.require(again is not FALSE, 'after a binder was moved no other pass follows', 'C07', s.where())
        raise Missing('no flag for another pass')
    for lv, a in lastf:
        rest = p & ~a
        for v in support(rest):
            if atom_term(v).op == 'lv': rest = cofactor(rest, v, True) | cofactor(rest, v, False)
        c.require(sat(rest) is None, 'after a binder was moved no other pass follows', 'C07', s.where(), sure=True)
    ins = [z for z in E.events if z.fn == 'insert' and z.args and z.args[0] is st]
    for z in ins: c.require(z.args[1] is u(call('class_qualified_name', x.named_decl())), 'registered is %s' % show(z.args[1], 4), 'C07', s.where(), sure=not opaque(z.args[1]))
