"""Types: requests, bindability, names, headers."""
from check import *
import strfold

HEADER_OF = {
    '<algorithm>': ('std::move_backward', 'std::iter_swap', 'std::min',),
    '<atomic>': ('std::memory_order', 'std::atomic_signal_fence', 'std::atomic_thread_fence',),
    '<exception>': ('std::nested_exception',),
    '<functional>': ('std::function', 'std::_Manager_operation', 'std::bad_function_call',),
    '<iterator>': ('std::advance', 'std::distance', 'std::iterator', 'std::iterator_traits', 'std::reverse_iterator', 'std::bidirectional_iterator_tag', 'std::forward_iterator_tag', 'std::input_iterator_tag', 'std::random_access_iterator_tag', 'std::begin', 'std::end',),
    '<locale>': ('std::ctype', 'std::ctype_byname', 'std::ctype_base', 'std::locale', 'std::money_base', 'std::money_base::pattern', 'std::messages_base', 'std::numpunct', 'std::num_get', 'std::num_put', 'std::numpunct_byname', 'std::time_base', 'std::codecvt', 'std::codecvt_base', 'std::codecvt_byname',),
    '<regex>': ('std::basic_regex', 'std::regex_traits',),
    '<string>': ('std::basic_string', 'std::char_traits',),
    '<thread>': ('std::thread::id',),
    '<cwchar>': ('std::mbstate_t',),
    '<memory>': ('std::uninitialized_copy',),
    '<mutex>': ('std::mutex', ' std::adopt_lock', 'std::adopt_lock_t', 'std::defer_lock', 'std::defer_lock_t', 'std::try_to_lock', 'std::try_to_lock_t', 'std::unique_lock', 'std::lock_guard',),
    '<utility>': ('std::move',),
}

HEADER_BY_PREFIX = (
    ('std::basic_ios', '<ios>'), ('std::list', '<list>'), ('std::map', '<map>'), ('std::allocator', '<memory>'), ('std::set', '<set>'),
    ('std::stack', '<stack>'), ('std::vector', '<vector>'), ('std::pair', '<utility>'), ('__gnu_cxx::__normal_iterator', '<iterator>'),
    ('std::__1::basic_string<char,std::__1::char_traits<char>,std::__1::allocator<char>>', '<string>'),
    ('std::__1::basic_streambuf<char,std::__1::char_traits<char>>', '<streambuf>'),
    ('std::__1::basic_istream<char,std::__1::char_traits<char>>', '<istream>'),
    ('std::__1::basic_iostream<char,std::__1::char_traits<char>>', '<ostream>'),)

PUBLIC_HEADER = (
    ('<bits/atomic_base.h>', '<atomic>'), ('<bits/ios_base.h>', '<ios>'), ('<bits/istream.tcc>', '<istream>'), ('<bits/ostream.tcc>', '<ostream>'),
    ('<bits/postypes.h>', '<ios>'), ('<bits/stl_function.h>', '<functional>'), ('<bits/stl_tree.h>', '<map>'), ('<bits/stl_map.h>', '<map>'),
    ('<bits/streambuf.tcc>', '<streambuf>'), ('<bits/stl_bvector.h>', '<vector>'), ('<bits/stl_vector.h>', '<vector>'),
    ('<bits/algorithmfwd.h>', '<algorithm>'), ('<bits/stl_algo.h>', '<algorithm>'), ('<bits/fstream.tcc>', '<fstream>'),
    ('<bits/sstream.tcc>', '<sstream>'), ('<bits/stl_list.h>', '<list>'), ('<bits/stl_deque.h>', '<deque>'), ('<bits/stl_queue.h>', '<queue>'),
    ('<bits/sched.h>', '<unistd.h>'), ('<bits/pthreadtypes.h>', '<pthread.h>'), ('<bits/gthr-default.h>', '<pthread.h>'),
    ('<bits/random.h>', '<random>'), ('<bits/basic_string.h>', '<string>'), ('<bits/basic_string.tcc>', '<string>'), ('<__string>', '<string>'),
    ('<bits/streambuf_iterator.h>', '<streambuf>'), ('<bits/shared_ptr.h>', '<memory>'), ('<bits/unique_ptr.h>', '<memory>'),
    ('<bits/uses_allocator.h>', '<memory>'), ('<bits/shared_ptr_base.h>', '<memory>'), ('<backward/auto_ptr.h>', '<memory>'),
    ('<ext/concurrence.h>', '<memory>'), ('<bits/ptr_traits.h>', '<memory>'), ('<bits/alloc_traits.h>', '<memory>'),
    ('<bits/stl_uninitialized.h>', '<memory>'), ('<bits/error_constants.h>', '<system_error>'), ('<bits/locale_classes.h>', '<locale>'),
    ('<bits/locale_classes.tcc>', '<locale>'), ('<__tree>', '<iterator>'), ('<bits/stl_iterator.h>', '<iterator>'),
    ('<__functional_base>', '<functional>'), ('<_wctype.h>', '<cwctype>'), ('<ctype.h>', '<cctype>'), ('<wchar.h>', '<cwchar>'),
    ('<bits/functional_hash.h>', '<functional>'), ('<bits/unordered_set.h>', '<unordered_set>'), ('<bits/unordered_map.h>', '<unordered_map>'),
    ('<__hash_table>', '<unordered_map>'), ('<bits/hashtable_policy.h>', '<unordered_map>'), ('<bits/hashtable.h>', '<unordered_map>'),
    ('<bits/stl_multiset.h>', '<set>'), ('<bits/stl_multimap.h>', '<map>'), ('<__locale>', '<locale>'), ('<__bit_reference>', '<vector>'),
    ('<bits/stl_stack.h>', '<stack>'), ('<bits/regex_cursor.h>', '<regex>'), ('<bits/regex_nfa.h>', '<regex>'), ('<bits/exception.h>', '<exception>'),
    ('<__mutex_base>', '<mutex>'), ('<bits/types/struct_FILE.h>', '<cstdio>'), ('<bits/forward_list.h>', '<forward_list>'),
    ('<bits/stl_heap.h>', '<algorithm>'), ('<bits/types/__mbstate_t.h>', '<ios>'), ('<bits/libio.h>', '<stdio.h>'),
    ('<bits/types/struct_tm.h>', '<time.h>'), ('<bits/types/struct_timespec.h>', '<time.h>'), ('<bits/types/struct_itimerspec.h>', '<time.h>'),
    ('<bits/pthreadtypes-arch.h>', '<pthread.h>'), ('<bits/pthread_stack_min-dynamic.h>', '<pthread.h>'),
    ('<bits/thread-shared-types.h>', '<pthread.h>'), ('<bits/struct_mutex.h>', '<pthread.h>'), ('<bits/struct_rwlock.h>', '<pthread.h>'),
    ('<bits/types/struct_sched_param.h>', '<pthread.h>'), ('<bits/setjmp.h>', '<csetjmp>'), ('<bits/types/struct___jmp_buf_tag.h>', '<csetjmp>'),)

RENAME = (
    ('std::__1::', 'std::'), ('std::__cxx11::', 'std::'), ('std::basic_string<char>', 'std::string'),
    ('std::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string'),
    ('class std::basic_string<char, struct std::char_traits<char>, class std::allocator<char> >', 'std::string'),
    ('std::basic_ostream<char>', 'std::ostream'), ('std::basic_istream<char>', 'std::istream'), ('class std::string', 'std::string'),
    ('class std::ostream', 'std::ostream'), ('class std::istream', 'std::istream'), ('class std::__thread_id', 'std::thread::id'),
    ('std::__thread_id', 'std::thread::id'), ('nullptr_t', 'std::nullptr_t'), ('std::std::nullptr_t', 'std::nullptr_t'),)

STD_NAMES = (
    ('basic_iostream<char,std::char_traits<char>>', 'iostream'), ('basic_ostream<char,std::char_traits<char>>', 'ostream'),
    ('basic_istream<char,std::char_traits<char>>', 'istream'), ('basic_ostream<wchar_t,std::char_traits<wchar_t>>', 'wostream'),
    ('basic_istream<wchar_t,std::char_traits<wchar_t>>', 'wistream'),
    ('basic_stringstream<char,std::char_traits<char>,std::allocator<char>>', 'stringstream'),
    ('basic_istringstream<char,std::char_traits<char>,std::allocator<char>>', 'istringstream'),
    ('basic_ostringstream<char,std::char_traits<char>,std::allocator<char>>', 'ostringstream'),
    ('basic_filebuf<char,std::char_traits<char>>', 'filebuf'), ('basic_stringbuf<char>', 'stringbuf'),
    ('basic_ifstream<char,std::char_traits<char>>', 'ifstream'), ('basic_ofstream<char,std::char_traits<char>>', 'ofstream'),
    ('basic_stringbuf<char,std::char_traits<char>,std::allocator<char>>', 'stringbuf'),
    ('basic_stringbuf<wchar_t,std::wchar_traits<wchar_t>,std::allocator<wchar_t>>', 'wstringbuf'),
    ('basic_streambuf<char,std::char_traits<char>>', 'streambuf'), ('basic_streambuf<wchar_t,std::char_traits<wchar_t>>', 'wstreambuf'),)

SIMPLIFY = (
    ('list<(.*), *std::allocator<\\1 *> *>', 'list<\\1>'), ('deque<(.*), *std::allocator<\\1 *> *>', 'deque<\\1>'),
    ('vector<(.*), *std::allocator<\\1 *> *>', 'vector<\\1>'), ('set<(.*), *std::less<\\1 *>, *std::allocator<\\1 *> *>', 'set<\\1>'),
    ('forward_list<(.*), *std::allocator<\\1 *> *>', 'forward_list<\\1>'),
    ('map<(.*),(.*), *std::less<\\1 *>, *std::allocator<std::pair<const \\1, \\2 *> *> *>', 'map<\\1,\\2>'),
    ('multiset<(.*), *std::less<(.*)>, *std::allocator<(.*)>>', 'multiset<\\1 *>'),
    ('multimap<(.*),(.*), *std::less<\\1>, *std::allocator<std::pair<const \\1, \\2 *> *> *>', 'multimap<\\1,\\2>'),
    ('unordered_set<(.*), *std::hash<\\1>,std::equal_to<\\1>,std::allocator<\\1>>', 'unordered_set<\\1>'),
    ('unordered_map<(.*), *(.*),std::hash<\\1>,std::equal_to<\\1>,std::allocator<std::pair<const \\1, \\2 *> *> *>', 'unordered_map<\\1,\\2>'),
    ('unordered_multiset<(.*), *std::hash<\\1>, *std::equal_to<\\1>, *std::allocator<\\1 *> *>', 'unordered_multiset<\\1>'),
    ('unordered_multimap<(.*), *(.*),std::hash<\\1 *>, *std::equal_to<\\1 *>, *std::allocator<std::pair<const \\1, \\2 *> *> *>', 'unordered_multimap<\\1,\\2>'),)

BUILTIN = (
    'std::basic_string', 'std::initializer_list', 'std::__1::basic_string', 'std::allocator', 'std::__allocator_destructor', 'std::shared_ptr',
    'std::enable_shared_from_this', 'std::__shared_ptr', 'std::unique_ptr', 'std::pair', 'std::tuple', 'std::_Rb_tree_iterator',
    'std::_Rb_tree_const_iterator', '__gnu_cxx::__normal_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::__list_node',
    'std::__wrap_iter', 'std::less', 'std::__value_type', 'std::__detail::_Hash_node_base', 'std::__detail::_Hash_node',
    'std::__detail::_Node_iterator', 'std::__detail::_Node_iterator_base', 'std::__detail::_Node_const_iterator', 'std::__hash_value_type',
    'std::function', 'std::complex', 'pybind11::handle', 'pybind11::object', 'pybind11::module_', 'pybind11::iterator', 'pybind11::type',
    'pybind11::iterable', 'pybind11::str', 'pybind11::bytes', 'pybind11::bytesarray', 'pybind11::none', 'pybind11::ellipsis', 'pybind11::bool_',
    'pybind11::int_', 'pybind11::float_', 'pybind11::weakref', 'pybind11::slice', 'pybind11::capsule', 'pybind11::tuple', 'pybind11::args',
    'pybind11::dict', 'pybind11::kwargs', 'pybind11::sequence', 'pybind11::list', 'pybind11::anyset', 'pybind11::frozenset', 'pybind11::set',
    'pybind11::function', 'pybind11::cpp_function', 'pybind11::staticmethod', 'pybind11::buffer', 'pybind11::memoryview', 'pybind11::array',
    'pybind11::array_t',)

STL = (
    'std::vector', 'std::deque', 'std::list', 'std::array', 'std::valarray', 'std::set', 'std::unordered_set', 'std::map', 'std::unordered_map',
    'std::experimental::optional', 'std::optional', 'std::variant',)


Q = P('QualType')
pointer, reference = Q.isPointerType(), Q.isReferenceType()     # of the canonical type: a typedef of a pointer is a pointer
disjoint = ~(pointer & reference)
pointee = Q.getPointeeType()
rec = Q.getAsCXXRecordDecl()
tag = Q.getAsTagDecl()


same = lambda a, b: (a & b) | (~a & ~b)


def table(x, rows, default):
    r = default
    for k, v in reversed(list(rows)): r = IF(x == k, v, r)
    return r


def through(name, what):
    """a question about a type is the question about what it points or refers to, or about its class"""
    return CASES((pointer | reference, call(name, pointee, CONFIG)), (nn(rec), call(name, rec, CONFIG)), V(FALSE))


@ob('C04', 'a type is requested when the class behind its pointers and references is')
def type_requested(c):
    c.cond(c.sum('is_binding_requested', 'QualType').v, through('is_binding_requested', ''), 'C04', what='the type is requested', pc=disjoint)


@ob('C03', 'a type is skipped when the class behind its pointers and references is')
def type_skipped(c):
    c.cond(c.sum('is_skipping_requested', 'QualType').v, through('is_skipping_requested', ''), 'C03', what='the type is skipped', pc=disjoint)


@ob('C15 C02', 'a type is a function type when a function lies behind its pointers and references')
def function_type(c):
    c.cond(c.sum('is_function_type').v, CASES((isa('FunctionType', Q), V(TRUE)), (isa('PointerType', Q) | isa('ReferenceType', Q), call('is_function_type', pointee)), V(FALSE)), 'C15 C02', what='function type',
           pc=same(isa('PointerType', Q), pointer) & same(isa('ReferenceType', Q), reference) & same(isa('FunctionType', Q), Q.isFunctionType()) & disjoint &     # it is given canonical types
           ~(isa('FunctionType', Q) & (isa('PointerType', Q) | isa('ReferenceType', Q))))


@ob('C02 C01 C04', 'no function pointer, rvalue reference, array, pointer to pointer or array, mutable pair or tuple by reference, dependent type, or class that is not bindable or not accessible')
def bindable_type(c):
    s = c.sum('is_bindable', 'QualType')
    pn = call('standard_name', pointee.getAsString())
    tuples = begins(pn, 'struct std::pair') | begins(pn, 'class std::tuple')
    ctuples = begins(pn, 'const struct std::pair') | begins(pn, 'const class std::tuple')
    acc = lambda n, v: tag.getAccess() == enum('clang::AS_' + n, v)
    pc = nn(Q) & disjoint & (~pointee.isConstantArrayType() | pointee.isArrayType())
    c.conj(s.v, [('C02', ~Q.isFunctionPointerType()), ('C02', ~Q.isMemberPointerType()), ('C02', ~Q.isRValueReferenceType()), ('C02', ~Q.isInstantiationDependentType()), ('C02', ~Q.isArrayType()),
                 ('C02', ~(pointer & pointee.isPointerType())), ('C02', ~(pointer & pointee.isArrayType())), ('C02', ~(pointer & (tuples | ctuples))), ('C02', ~(reference & tuples)),
                 ('C02', ~(pointer | reference) | call('is_bindable', pointee)), ('C02', ~nn(rec) | call('is_bindable', rec)),
                 ('C01', ~(nn(tag) & (acc('protected', 1) | acc('private', 2))))], 'C04', 'the type is bindable', pc)


@ob('C07 C03', 'the complete class or enumeration behind pointers and references is requested unless it is skipped')
def type_request(c):
    s = c.sum('request_bindings', 'QualType')
    ctx = P('Context')
    go = ~call('is_skipping_requested', Q, CONFIG)
    c.effects(s, {'request_bindings'}, [
        ('request_bindings', (ctx, call('typename_from_type_decl', tag)), (), go & nn(tag) & (tag.isCompleteDefinition() | isa('ClassTemplateSpecializationDecl', tag)), 'C07', 'C03 C07'),
        ('request_bindings', (pointee, ctx), (), go & (pointer | reference), 'C07', 'C03')], pc=disjoint)


@ob('C11', 'a type is named by the standard form of its canonical type')
def type_name(c):
    r = Q.getAsString()
    c.text(c.sum('standard_name', 'QualType').v, IF(r == 'std::size_t', r, call('standard_name', Q.getCanonicalType().getAsString())), 'C11')


def renamed(x):
    for a, b in RENAME: x = out('replace', 0, x, a, b)
    return out('fix_boolean_types', 0, IF(begins(x, 'std::'), 'std::' + call('simplify_std_class_name', substr(x, 5)), x))


@ob('C11 C08', 'implementation namespaces and long forms of standard library names are replaced, in order')
def standard_form(c): c.text(c.sum('standard_name_raw').v, renamed(P('string')), 'C11')


def statics(f):
    """the function declares a static variable"""
    stack = [f['body']]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if x.get('static') and 'v' in x: return True
            stack += x.values()
        elif isinstance(x, list): stack += x
    return False


# answers of Clang that different entities share
SHARED = {'getNameAsString', 'getQualifiedNameAsString', 'getName', 'getCanonicalDecl', 'getMostRecentDecl', 'getFirstDecl', 'getDefinition', 'getParent', 'getLocation', 'getDeclContext', 'getUnqualifiedType', 'getTypePtr', 'getNonReferenceType', 'size'}


@ob('C18', 'a remembered answer is the one a fresh computation gives: it is entered and looked up under the same key, it is the value computed, and the key determines that value')
def remembered(c):
    for f in sorted(c.F.functions.values(), key=lambda f: f['fk']):
        if '/source/' not in f['f'] or not statics(f): continue
        s = c.summary(f, stop=tuple(g for g in ('standard_name_raw', 'simplify_std_class_name_raw', 'is_bindable_raw') if not f['fn'].endswith(g)))
        for S, entries in s.memos.items():
            raw = [t for t in subterms(s.raw) if t.op in ('has', 'at') and any(p is S for p in engine.pieces(t.a[0]))]
            if not raw: continue   # what is remembered is not the answer
            keys = list(dict.fromkeys(t.a[1] for t in raw))
            v = s.v
            for k, val, pc, e in entries:
                c.where = '%s:%d' % (os.path.relpath(e.file, facts.REPO), e.line)
                for q in keys: c.require(q is k, 'what is remembered under %s is looked up under %s' % (show(k, 4), show(q, 4)), 'C18', c.where, sure=not opaque(q) and not opaque(k))
                val = fresh(val, s.memos)
                if isinstance(v, B) or isinstance(val, T) and val.op == 'b': c.cond(asb(val), V(asb(v)), 'C18', what='the answer remembered')
                else: c.text(val, V(v), 'C18')
                # the key determines the answer
                rest = engine.substitute(v, {k: mk('sym', 'KEY')})
                for t in dict.fromkeys(subterms(rest)):
                    if t.op == 'p' or t.op == 'this': c.require(False, 'the answer depends on %s, of which the key %s tells only part' % (show(t), show(k, 4)), 'C18', c.where, sure=t.op == 'p' and lossy(k, t))
                c.checked += 1
            c.require(not any(t.op == 'noentry' for t in subterms(v)), 'the answer is read from an entry that does not exist', 'C18', s.where())
        # an entry that is returned without asking whether there is one
        v = s.raw
        if isinstance(v, B):
            a = [atom_term(x) for x in support(v)]; v = a[0] if len(a) == 1 else None
            v = v.a[0] if v is not None and v.op in ('nn', 'tob') else v
        if isinstance(v, T) and v.op == 'at' and all(p.op == 'static' for p in engine.pieces(v.a[0])) and varies(v.a[1]):
            c.require(False, 'the answer is what is remembered under %s whether or not there is such an entry' % show(v.a[1], 4), 'C18', s.where(), sure=True)


def lossy(k, p):
    """different values of the parameter p have the same key k"""
    if not any(t is p for t in subterms(k)): return True
    return k.op == 'call' and k.a[0] in SHARED and any(x is p for x in k.a[1])


def forget(v, known):
    return engine.substitute(v, {k: EMPTY for k in known})


@ob('C18 C11', 'the memo of standard names is transparent')
def standard_name_memo(c): c.text(c.sum('standard_name', 'basic_string', stop=('standard_name_raw',)).v, call('standard_name_raw', P('string')), 'C18 C11')


@ob('C18 C11', 'the memo of simplified names is transparent')
def simplify_memo(c): c.text(c.sum('simplify_std_class_name', stop=('simplify_std_class_name_raw',)).v, call('simplify_std_class_name_raw', P('string')), 'C18 C11')


@ob('C11', 'known standard library types are named by their typedef')
def std_typedefs(c):
    s = c.sum('simplify_std_class_name_raw')
    t = P('string')
    c.text(s.v, table(t, STD_NAMES, V(mk('any'))), 'C11', pc=oneof(t, [k for k, _ in STD_NAMES]))
    for k, v in STD_NAMES:
        x = engine.substitute(s.v, {u(t): mk('s', k)})
        if rules(x): c.require(False, '%s is not named %s' % (k, v), 'C11', s.where())
    x = engine.substitute(s.v, {u(t): mk('s', 'x<y>')})
    c.require(rules(x), 'a name that has no typedef is not simplified but becomes %s' % show(x, 3), 'C11', s.where(), sure=not any(a.op == 'call' for a in subterms(x)))


# the arguments of the standard containers: the defaults, given the key {0} and the value {1}
CONTAINERS = {}
for l, n, a in (('list deque vector forward_list', 1, '{0};std::allocator<{0}>'), ('set multiset', 1, '{0};std::less<{0}>;std::allocator<{0}>'),
                ('map multimap', 2, '{0};{1};std::less<{0}>;std::allocator<std::pair<const {0}, {1}>>'),
                ('unordered_set unordered_multiset', 1, '{0};std::hash<{0}>;std::equal_to<{0}>;std::allocator<{0}>'),
                ('unordered_map unordered_multimap', 2, '{0};{1};std::hash<{0}>;std::equal_to<{0}>;std::allocator<std::pair<const {0}, {1}>>')):
    for x in l.split(): CONTAINERS[x] = n, a.split(';')


def rules(v):
    """the substitutions applied to a name: (pattern, replacement), both literal"""
    r = []
    for t in subterms(v):
        if t.op == 'call' and t.a[0] == 'sub' and len(t.a[1]) > 1:
            a, b = t.a[1][:2]
            if a.op == 'ctor' and a.a[0].endswith('Regex') and a.a[1] and a.a[1][0].op == 's' and b.op == 's': r.append((a.a[1][0].a[0], b.a[0]))
    return list(dict.fromkeys(r))


@ob('C11 C08', 'an argument of a standard container is left out of its name only when it is the default')
def std_defaults(c):
    s = c.sum('simplify_std_class_name_raw')
    rs = rules(s.v)
    if not rs: return c.require(False, 'no substitutions found', 'C11', s.where(), sure=False)
    first = forget(s.v, {t for t in subterms(s.v) if t.op == 'static'})
    c.require(rules(first), 'at the first call nothing is substituted', 'C11 C18', s.where(), sure=not any(t.op == 'call' and t.a[0] == 'sub' for t in subterms(first)))
    short = lambda p, q, n: re.sub(p, q, n, count=1)
    for n, (k, form) in CONTAINERS.items():
        for kv in (('int', 'double'), ('n::A<b, c>', 'std::string'), ('int *', 'n::B')):
            a = [x.format(*kv) for x in form]
            full, want = n + '<' + ','.join(a) + '>', n + '<' + ','.join(a[:k]) + '>'
            got = set()
            for p, q in rs:
                try: r = short(p, q, full)
                except re.error: return c.require(False, 'pattern %s' % p, 'C11', s.where(), sure=False)
                if r == full: continue
                got.add(r)
                c.require(r == want, '%s is named %s by the substitution of %s' % (full, r, p), 'C11 C08', s.where())
            c.require(got, '%s is not named %s' % (full, want), 'C11', s.where())
            for i in range(k, len(a)):
                for other in ('std::less<void>', 'Other<%s>' % kv[0], 'std::allocator<Z>', 'std::greater<%s>' % kv[0]):
                    if other == a[i]: continue
                    v = n + '<' + ','.join(a[:i] + [other] + a[i + 1:]) + '>'
                    for p, q in rs: c.require(short(p, q, v) == v, '%s, which does not have the default arguments, is named %s by the substitution of %s' % (v, short(p, q, v), p), 'C11 C08', s.where())


N = P('NamedDecl')
name = call('standard_name', N.getQualifiedNameAsString())


@ob('C02 C04 C05', 'a type is built into Python when configured so or known, never when configured not to be; containers only with the stl option')
def builtin_types(c):
    s = c.sum('is_python_builtin')
    cfg = lambda f: has_(CONFIG.f(f), name)
    holder = name == CONFIG.f('holder_type_')
    known = oneof(name, BUILTIN) | holder
    c.conj(s.v, [('C05', ~cfg('not_python_builtins')), ('C02 C05 C04', cfg('python_builtins') | known | (nn(G('O_include_pybind11_stl')) & oneof(name, STL)))], 'C02 C05 C22', 'built into Python')


@ob('C02 C04', 'internal names of the standard library are never bound')
def banned(c): c.cond(c.sum('is_banned_symbol').v, begins(name, 'std::_') | oneof(name, ['std::initializer_list', 'std::locale::facet']), 'C04', 'C02', 'the symbol is banned')


@ob('C21 C09', 'the include directive of a declaration is the text between angle brackets that included its file; a quoted one, one that is a macro, and the main file give none')
def include_text(c):
    s = c.sum('relevant_include')
    sm = N.getASTContext().getSourceManager()
    loc = call('getIncludeLoc', sm, call('getFileID', sm, N.getLocation()))
    data = [t for t in dict.fromkeys(subterms(s.v)) if t.op == 'call' and t.a[0] == 'getCharacterData']
    if len(data) != 1: return c.require(False, 'the text of the include directive is not read', 'C21 C09', s.where(), sure=s.v is EMPTY)
    c.require(data[0].a[1][1] is u(loc), 'the text is not read where the file of the declaration was included', 'C21 C09', s.where())
    valid = ~loc.isInvalid()
    c.text(strfold.put(s.v, {data[0]: mk('s', '<x>')}), S(''), 'C21 C09', pc=~valid)
    name, rest = strfold.free('name', '<>"\0'), mk('sym', 'rest', 'free', '')
    for text, want in ((cat(mk('s', '<x'), name, mk('s', '>'), rest), cat(mk('s', '<x'), name, mk('s', '>'))), (cat(mk('s', '"x'), name, mk('s', '"'), rest), EMPTY), (cat(mk('s', 'MACRO'), rest), EMPTY)):
        c.text(strfold.put(s.v, {data[0]: text}), V(want), 'C21 C09', pc=valid)


@ob('C21', 'the header of a declaration is the public one for standard library names and for implementation headers, and the one that was included otherwise')
def header_of_declaration(c):
    free = ~N.isCXXClassMember()
    s = c.sum('add_relevant_include_for_decl', pc=cond(free))
    inc = N.relevant_include()
    note = IF(nn(G('O_annotate_includes')), ' // ' + name)
    pub = table(inc, PUBLIC_HEADER, inc)
    byp = IF(ne(pub), ITEM(pub + note))
    for k, v in reversed(HEADER_BY_PREFIX): byp = IF(begins(name, k), ITEM(v + note), byp)
    rows = [(t, ITEM(h + note)) for h, l in HEADER_OF.items() for t in l]
    lazy = {t for t in subterms(s.pfield('IncludeSet', 'includes_')) if t.op == 'static'}
    c.text(forget(s.pfield('IncludeSet', 'includes_'), lazy), P('IncludeSet').f('includes_') + table(name, rows, byp), 'C21')


@ob('C21', 'given names of declarations and headers lead to the header the tables give')
def header_spelled(c):
    from strfold import put
    s = c.sum('add_relevant_include_for_decl', pc=cond(~N.isCXXClassMember()))
    got = s.pfield('IncludeSet', 'includes_')
    got = forget(got, {t for t in subterms(got) if t.op == 'static'})
    inc, n = u(N.relevant_include()), u(name)
    note = lambda t: S(t, IF(nn(G('O_annotate_includes')), ' // ' + name))
    public = dict(reversed(PUBLIC_HEADER))
    heads = [(k, v) for k, v in public.items()] + [(x, x) for x in ('<a.hpp>', '<list>', '<bits/stl_list.hh>', '<stl_list.h>', '<lib/bits/stl_list.h>') if x not in public] + [('', None)]
    bytype = {t: h for h, l in HEADER_OF.items() for t in l}
    names = [('ns::A', None), ('A', None), ('std::A', None)] + list(bytype.items()) + [(k + x, v) for k, v in HEADER_BY_PREFIX for x in ('', '<int>') if k + x not in bytype] + [('x' + k, None) for k, v in HEADER_BY_PREFIX]
    def check_(nm, header, want):
        m = {n: mk('s', nm), inc: mk('s', header)}
        spec = P('IncludeSet').f('includes_')
        if want: spec = spec + ITEM(note(want))
        c.text(put(got, m), V(put(u(spec), m)), 'C21')
    for h, w in heads: check_('ns::A', h, w)
    for nm, w in names:
        if w or nm != 'ns::A': check_(nm, '<a.hpp>', w or '<a.hpp>')


@ob('C21', 'the header of a member is looked up under its class')
def header_of_member(c):
    s = c.sum('add_relevant_include_for_decl')
    m = isa('CXXMethodDecl', N)
    par = N.getParent()
    got = [e for e in s.E.events if e.fn == 'standard_name']
    c.require(len(got) == 1, 'name', 'C21', sure=False)
    rec = isa('CXXRecordDecl', N) & ~m
    q = lambda x: x.getQualifiedNameAsString()
    spec = CASES((~N.isCXXClassMember(), q(N)), (m, IF(par.isCXXClassMember() & isa('CXXRecordDecl', par), q(par.getParent()), q(par))), (rec, q(par)), S(''))
    for e in got: c.text(e.args[0], spec, "C21", pc=nn(N) & nn(par) & nn(par.getParent()))


@ob('C21', 'the headers of a type are those of the class or enumeration behind its pointers and references')
def type_includes(c):
    s = c.sum('add_relevant_includes', 'QualType')
    a = (P('IncludeSet'), P('int'))
    c.effects(s, {'add_relevant_includes'}, [
        ('add_relevant_includes', (pointee,) + a, (), pointer | reference, 'C21', 'C16'),
        ('add_relevant_includes', (tag,) + a, (), nn(tag) & (isa('CXXRecordDecl', tag) | isa('EnumDecl', tag)), 'C21', 'C16')], pc=disjoint)
