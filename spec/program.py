"""The program around the generator: options, what is collected from the input, the exit status, defaults."""
from check import *
from strfold import put

OPTIONS = {  # variable: (name, type, default, properties)
    'O_annotate_includes': ('annotate-includes', 'bool', False, 'C22'), 'O_annotate_functions': ('annotate-functions', 'bool', False, 'C22'),
    'O_single_file': ('single-file', 'bool', False, 'C22'), 'O_trace': ('trace', 'bool', False, 'C22'), 'O_verbose': ('v', 'bool', False, 'C22'),
    'O_flat': ('flat', 'bool', False, 'C22'), 'O_include_pybind11_stl': ('include-pybind11-stl', 'bool', False, 'C22'),
    'O_root_module': ('root-module', 'string', '', 'C22'), 'O_max_file_size': ('max-file-size', 'int', 16384, 'C22'),
    'O_skip_line_number': ('skip-line-number', 'bool', False, 'C22'), 'O_prefix': ('prefix', 'string', '', 'C22'),
    'O_bind': ('bind', 'list', None, 'C22'), 'O_skip': ('skip', 'list', None, 'C22'), 'O_config': ('config', 'string', '', 'C22'),
    'O_suppress_errors': ('suppress-errors', 'bool', False, 'C22'),
    'O_bind_class_template_specialization': ('bind-class-template-specialization', 'bool', True, 'C22 C04')}


def const(n):
    """the constant a node stands for"""
    k = n.get('k')
    if k in ('int', 'bool', 'str'): return n['v']
    if k == 'bin':
        a, b = [const(x) for x in n['a']]
        if a is None or b is None: return None
        return {'*': lambda: a * b, '+': lambda: a + b, '-': lambda: a - b, '<<': lambda: a << b}.get(n['op'], lambda: None)()
    if k in ('ctor', 'cast', 'paren') and len(n.get('a', [])) >= 1: return const(n['a'][0])
    if isinstance(n.get('e'), dict): return const(n['e'])
    return None


def option(g):
    """(name, default, given) of an option variable"""
    i = g.get('i')
    if not i or not i.get('a'): return None
    name, default = None, None
    for a in i['a']:
        if a.get('k') == 'str' and name is None: name = a['v']
        if a.get('k') == 'call' and a.get('fn') == 'llvm::cl::init': default = (const(a['a'][0]),)
    return name, default


@ob('C22 C04', 'every command line option exists under its name, with its type and default')
def options(c):
    F = c.F
    for v, (name, ty, default, tags) in OPTIONS.items():
        g = F.globals.get(v)
        if g is None: raise Missing('no option variable ' + v)
        o = option(g)
        where = '%s:%d' % (os.path.relpath(g['f'], facts.REPO), g['l'])
        if o is None: raise Missing('the option %s is not defined in place' % v)
        c.require(o[0] == name, 'the option of %s is called %s' % (v, o[0]), tags, where, sure=o[0] is not None)
        t = g['t']
        kind = 'list' if t.startswith('llvm::cl::list') else 'bool' if '<bool' in t else 'string' if 'basic_string' in t or 'std::string' in t else 'int' if '<int' in t or '<unsigned' in t or '<long' in t else None
        c.require(kind == ty, 'the option %s is of type %s' % (name, t), tags, where, sure=kind is not None)
        if ty != 'list':
            d = o[1][0] if o[1] else {'bool': False, 'string': '', 'int': 0}[ty]
            c.require(d == default, 'the default of the option %s is %r' % (name, d), tags, where, sure=d is not None)
    c.functions |= {v for v in OPTIONS}


@ob('C22 C05 C10', 'options are taken over before the configuration file, which adds to them, is read')
def taking_options(c):
    s = c.sum('::BinderVisitor::BinderVisitor', stop=('read',))
    cfg = u(CONFIG)
    want = {'root_module': (G('O_root_module'), 'C22'), 'prefix': (G('O_prefix'), 'C22 C10'), 'maximum_file_length': (G('O_max_file_size'), 'C22'), 'skip_line_number': (G('O_skip_line_number'), 'C22'),
            'namespaces_to_bind': (G('O_bind'), 'C22 C04'), 'namespaces_to_skip': (G('O_skip'), 'C22 C03')}
    reads = [e for e in s.E.events if e.fn == 'read' and e.args and e.args[0] is cfg]
    if not reads: c.require(False, 'the configuration file is not read', 'C22 C05', s.where(), sure=not s.E.opaque)
    g = FALSE
    for e in reads:
        c.require(e.args[1] is u(G('O_config')), 'the configuration file read is %s' % show(e.args[1], 4), 'C22 C05', s.where(), sure=not opaque(e.args[1]))
        g = g | e.pc
    if reads: c.cond(g, ne(G('O_config')), 'C22', 'C22 C05', 'the configuration file is read')
    for m, (v, tags) in want.items():
        st = [e for e in s.E.events if e.kind == 'store' and len(e.args) == 3 and e.args[0] is cfg and e.args[1] is mk('s', m)]
        got = s.E.field(s.st, cfg, m)
        if not st:
            if any(e.fn in ('insert', 'push_back', 'assign') for e in s.E.events): raise Missing('%s is set in a different way' % m)
            c.require(False, 'the option for %s is not taken over' % m, tags, s.where(), sure=not s.E.opaque)
            continue
        e = st[-1]
        val = asb(e.args[2]) if m == 'skip_line_number' else e.args[2]
        w = asb(tob(u(v))) if m == 'skip_line_number' else u(v)
        c.require(val is w, '%s is set to %s' % (m, show(e.args[2], 4)), tags, s.where(), sure=not opaque(e.args[2]) if isinstance(e.args[2], T) else True)
        c.cond(e.pc, V(TRUE), tags, what='%s is set' % m)
        for r in reads: c.require(e.seq < r.seq, '%s is set after the configuration file was read, which may have set it' % m, 'C05 C22', s.where(), sure=m.startswith('namespaces'))
    sup = [e for e in s.E.events if e.fn == 'setSuppressAllDiagnostics']
    g = FALSE
    for e in sup:
        x = e.args[1] if len(e.args) > 1 else mk('b', TRUE)
        g = g | (e.pc & asb(x))
    c.cond(g, nn(G('O_suppress_errors')), 'C22', what='errors of the compiler are suppressed')


@ob('C04 C02 C16', 'every function, class and enumeration of the input that is no class member is registered, with its own kind of binder')
def collecting(c):
    for fn, p, binder, guard in (
            ('VisitFunctionDecl', 'FunctionDecl', 'FunctionBinder', lambda D: ~isa('CXXMethodDecl', D) & ~D.isCXXInstanceMember() & D.is_bindable()),
            ('VisitCXXRecordDecl', 'CXXRecordDecl', 'ClassBinder', lambda D: ~D.isCXXClassMember() & ~D.isCXXInstanceMember() & D.is_bindable()),
            ('VisitEnumDecl', 'EnumDecl', 'EnumBinder', lambda D: ~D.isCXXClassMember() & ~D.isCXXInstanceMember())):
        s = c.sum('::BinderVisitor::' + fn, stop=('add', 'add_insertion_operator'))
        D = P(p)
        c.cond(s.v, V(TRUE), 'C04', what='the traversal goes on after ' + p)
        ctx = fld(mk('this', 'BinderVisitor'), 'context')
        adds = [e for e in s.E.events if e.fn == 'add']
        if not adds and fn not in ('',): c.require(False, 'no %s is registered' % p, 'C04', s.where(), sure=not s.E.opaque)
        g = FALSE
        for e in adds:
            x = e.args[-1]
            made = x.a[0].endswith(binder) and x.a[1] and x.a[1][0] is u(D) if x.op == 'new' else x.op == 'rec' and x.a[0].endswith(binder) and any(v is u(D) for _, v in x.a[1])
            c.require(made, 'registered for a %s is %s' % (p, show(x, 5)), 'C04 C11', s.where(), sure=x.op == 'new' and not opaque(x))
            g = g | e.pc
        # an instance member is a class member; a method is one
        pc = TRUE
        if p == 'FunctionDecl': pc = cond(~D.isCXXInstanceMember() | isa('CXXMethodDecl', D))
        else: pc = cond(~D.isCXXInstanceMember() | D.isCXXClassMember())
        if p == 'EnumDecl': c.cond(g, ~D.isCXXClassMember(), 'C02 C23', 'C04', 'an enumeration is registered', pc=pc)
        else: c.cond(g, guard(D), 'C02', 'C04', 'a %s is registered' % p, pc=pc)
        if p == 'FunctionDecl':
            ins = FALSE
            for e in s.E.events:
                if e.fn == 'add_insertion_operator':
                    c.require(e.args[-1] is u(D), 'another operator is kept', 'C11 C04', s.where(), sure=not opaque(e.args[-1]))
                    ins = ins | e.pc
            c.cond(ins, ~isa('CXXMethodDecl', D) & ~D.isCXXInstanceMember() & ~D.is_bindable() & D.isOverloadedOperator() & (D.getNameAsString() == 'operator<<'), 'C04 C11', 'C04', 'an insertion operator is kept', pc=pc)
    s = c.sum('::BinderVisitor::shouldVisitTemplateInstantiations')
    c.cond(s.v, V(TRUE), 'C04', what='instantiations of templates are visited')


@ob('C10 C04', 'the whole translation unit is visited, then the bindings are generated; the status is that of the tool, or 1 if the command line is wrong')
def running(c):
    s = c.sum('::BinderASTConsumer::HandleTranslationUnit', stop=('generate', 'TraverseDecl'))
    ev = [e for e in s.E.events if e.fn in ('TraverseDecl', 'generate')]
    tr = [e for e in ev if e.fn == 'TraverseDecl']
    ge = [e for e in ev if e.fn == 'generate']
    if not tr or not ge:
        c.require(False, 'the translation unit is not visited' if not tr else 'no bindings are generated', 'C04', s.where(), sure=not s.E.opaque)
        return
    for e in tr:
        c.require(e.args[-1] is u(P('ASTContext').getTranslationUnitDecl()), 'visited is %s' % show(e.args[-1], 4), 'C04', s.where(), sure=not opaque(e.args[-1]))
        c.require(e.seq < ge[0].seq, 'the bindings are generated before the input is visited', 'C04', s.where())
        c.cond(e.pc, V(TRUE), 'C04', what='the input is visited')
    if len(ge) == 1: c.cond(ge[0].pc, V(TRUE), 'C04 C10', what='bindings are generated')
    s = c.sum('::main')
    runs = {x for x in subterms(s.v) if x.op == 'call' and x.a[0] == 'run'} | {mk('call', 'run', tuple(e.args)) for e in s.E.events if e.fn == 'run'}
    if not runs: raise Missing('the tool is not run')
    for g, x in alt(s.v):
        done = [e for e in s.E.events if e.fn == 'run' and (e.pc & g) is not FALSE]
        if done: c.require(x.op == 'call' and x.a[0] == 'run', 'the status after a run is %s' % show(x, 4), 'C10', s.where(), sure=x.op in ('int', 'enum'))
        else: c.require(not (x.op == 'int' and x.a[0] == 0), 'the status is 0 although nothing was generated', 'C10', s.where())


def alt(t, g=TRUE):
    if isinstance(t, T) and t.op == 'ite': return alt(t.a[1], g & t.a[0]) + alt(t.a[2], g & ~t.a[0])
    return [] if g is FALSE else [(g, t if isinstance(t, T) else mk('b', t))]


AUTO = 'pybind11::return_value_policy::automatic'
DEFAULTS = dict([(p % k, (AUTO, 'C06 C05')) for p in ('default_static_%s_return_value_policy_', 'default_member_%s_return_value_policy_') for k in ('pointer', 'lvalue_reference', 'rvalue_reference')])
DEFAULTS.update({'default_call_guard_': ('', 'C06 C05'), 'holder_type_': ('std::shared_ptr', 'C14 C05'), 'pybind11_include_file_': ('pybind11/pybind11.h', 'C05 C21'), 'prefix_for_static_member_functions_': ('', 'C17 C05'),
                 'skip_line_number': (False, 'C22')})


@ob('C06 C05 C14 C17 C22 C08', 'what is not configured has its documented default, and nothing is configured beforehand')
def defaults(c):
    E = Engine(c.F)
    cl = c.F.classes.get('binder::Config')
    if not cl: raise Missing('no class Config')
    ctor = [f for f in c.F.byname.get('binder::Config::Config', []) if not f['params']]
    fs = dict(E.class_fields('binder::Config', State(TRUE, {})))
    where = '%s:%d' % (os.path.relpath(cl['f'], facts.REPO), cl['l'])
    if len(ctor) == 1:
        s = c.sum('binder::Config::Config', nparams=0)
        for e in s.E.events:
            if e.kind == 'store' and e.args[0].op == 'this' and e.args[1].op == 's': fs[e.args[1].a[0]] = s.field(e.args[1].a[0])
    for n, (d, tags) in DEFAULTS.items():
        v = fs.get(n)
        if v is None: raise Missing('no member ' + n)
        v = tot(v)
        w = mk('s', d) if isinstance(d, str) else mk('b', TRUE if d else FALSE)
        c.require(v is w or (d == '' and v is EMPTY), '%s is %s unless configured' % (n, show(v, 4)), tags, where, sure=v.op in ('s', 'b', 'nil'))
    for n, v in fs.items():
        if n in DEFAULTS: continue
        c.require(v in (EMPTY, mk('nil')) or v.op not in ('s', 'cat', 'item', 'kv'), '%s is %s beforehand' % (n, show(v, 4)), 'C05 C22', where, sure=v.op in ('s', 'item', 'kv'))
