"""Generated output is a function of the input: no order, value or text in it may come from addresses, hashes, time, environment, locale or uninitialised memory."""
import re
from check import *

UNORDERED = re.compile(r'^(const )?(std::(__\w+::)?unordered_\w+<|llvm::(Small)?Dense(Map|Set)<|llvm::(Small)?PtrSet|llvm::SmallPtrSet\w*<|llvm::String(Map|Set)<|llvm::DenseMapBase<|llvm::ValueMap<)')
BYPTR = re.compile(r'^(const )?std::(multi)?(set|map)<')
SMART = re.compile(r'^(const )?std::(shared|unique|weak)_ptr<')
CHANGING = {'time', 'clock', 'clock_gettime', 'gettimeofday', 'localtime', 'gmtime', 'strftime', 'ctime', 'asctime', 'rand', 'random', 'rand_r', 'drand48', 'getenv', 'secure_getenv', 'getpid', 'getppid',
            'gethostname', 'getcwd', 'tmpnam', 'mkstemp', 'tempnam', 'getlogin', 'getuid', 'uname', 'now', 'current_path', 'temp_directory_path', 'last_write_time', 'get_id', 'hardware_concurrency', 'getMainExecutable',
            'GetEnv', 'getCurrentTime', 'getProcessId', 'getHostName', 'GetRandomNumber', 'setlocale', 'imbue', 'localeconv', 'hash_value', 'hash_combine', 'home_directory', 'current_time', 'getpwuid', 'getTotalMemoryUsage', 'GetMallocUsage', 'getNumFilesCreated'}
CHANGING_TYPES = re.compile(r'^(const )?(std::(random_device|mt19937\w*|default_random_engine|locale|thread::id)|std::mersenne_twister_engine<|std::linear_congruential_engine<)')


def first_arg(t):
    """first template argument of a type"""
    i = t.index('<') + 1
    d, j = 0, i
    while j < len(t):
        ch = t[j]
        if ch in '<(': d += 1
        elif ch in '>)':
            if d == 0: break
            d -= 1
        elif ch == ',' and d == 0: break
        j += 1
    return t[i:j].strip()


def template_args(t):
    i, out, d = t.index('<') + 1, [], 0
    j = i
    while j < len(t):
        ch = t[j]
        if ch in '<(': d += 1
        elif ch in '>)':
            if d == 0: break
            d -= 1
        elif ch == ',' and d == 0:
            out.append(t[i:j].strip()); i = j + 1
        j += 1
    return out + [t[i:j].strip()]


def is_ptr(t):
    t = t.strip()
    return t.endswith('*') or t.endswith('*const') or t.endswith('* const') or bool(SMART.match(t))


def strip(t): return re.sub(r'^const ', '', t.replace(' &', '').strip())


def unstable(t):
    """the order of the elements of such a container depends on hashes or addresses"""
    t = strip(t)
    if UNORDERED.match(t): return 'the order of %s is that of hashes' % t.split('<')[0]
    if BYPTR.match(t):
        a = template_args(t)
        if is_ptr(a[0]):
            cmp = a[1 if '::set<' in t or 'multiset<' in t else 2] if len(a) > (1 if '::set<' in t or 'multiset<' in t else 2) else 'std::less'
            if cmp.startswith('std::less') or cmp.startswith('std::greater'): return 'the order of %s is that of addresses' % t.split(',')[0]
    return None


def nodes(n, up=()):
    st = [(n, ())]
    while st:
        x, up = st.pop()
        if isinstance(x, dict):
            if 'k' in x: yield x, up
            nu = up + (x,) if 'k' in x else up
            st.extend((v, nu) for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list): st.extend((v, up) for v in x if isinstance(v, (dict, list)))


def calls(n): return [x for x, _ in nodes(n) if x['k'] in ('call', 'opcall')]


QUIET = {'insert', 'emplace', 'count', 'find', 'end', 'begin', 'erase', 'size', 'empty'}


def order_free(body):
    """the effects of a loop body do not depend on the order it is run in: only insertions into ordered containers, and lookups"""
    for x, up in nodes(body):
        if x['k'] == 'call':
            f = x['fn'].split('::')[-1]
            o = x.get('o')
            if o is not None and f in ('insert', 'emplace', 'erase') and not (BYPTR.match(strip(o['t'])) or UNORDERED.match(strip(o['t']))): return False
            if o is not None and f in ('push_back', 'append', 'emplace_back', 'push_front', 'add_include', 'add', 'write', 'assign'): return False
            if x.get('rp') and not x.get('cm'): return False
        if x['k'] == 'opcall' and x['op'] in ('+=', '<<', '='): return False
        if x['k'] == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>=', '|=', '&=', '+='): return False
        if x['k'] in ('break', 'return', 'throw'): return False
    return True


def to_log(up):
    """part of a message to outs() or errs()"""
    for x in up:
        if x['k'] == 'opcall' and x['op'] == '<<':
            y = x
            while y.get('k') == 'opcall' and y['op'] == '<<': y = y['a'][0]
            if y.get('k') == 'call' and y['fn'] in ('llvm::outs', 'llvm::errs', 'llvm::dbgs', 'llvm::nulls'): return True
            if 'ostream' in y.get('t', '') and y.get('g') in ('std::cout', 'std::cerr', 'std::clog'): return True
    return False


def rel(f): return os.path.relpath(f, facts.REPO)


def whole(f): return [f.get('body')] + [x for x in (f.get('inits') or [])]


@ob('C08', 'nothing that reaches the output is enumerated in the order of hashes or addresses')
def enumeration_order(c):
    for f in c.F.functions.values():
        c.functions.add(f['fn'])
        body = f.get('body')
        if not body: continue
        sorts = any(x['fn'].split('::')[-1] in ('sort', 'stable_sort') for x in calls(body))
        for x, up in nodes(body):
            c.checked += x['k'] in ('forr', 'call', 'bin', 'opcall')
            where = '%s:%d' % (rel(f['f']), x.get('l') or f['l'])
            if x['k'] == 'forr':
                why = unstable(x['r'].get('t', ''))
                if why is not None:
                    c.require(order_free(x['body']), '%s enumerates a container and %s' % (f['fn'], why), 'C08', where, sure=not sorts)
            if x['k'] == 'call' and x['fn'].split('::')[-1] in ('begin', 'cbegin') and x.get('o') is not None:
                why = unstable(x['o'].get('t', ''))
                if why is None: continue
                # (iterators are copied on their way)
                par = next((y for y in reversed(up) if not (y['k'] in ('ctor', 'cast', 'expr') and 'iterator' in y.get('t', '').lower())), {})
                # a copy into an ordered container, or a search, does not depend on the order
                ok = par.get('k') == 'ctor' and BYPTR.match(strip(par.get('t', ''))) and not unstable(par['t'])
                ok = ok or par.get('k') == 'call' and par['fn'].split('::')[-1] in ('find', 'find_if', 'count', 'count_if', 'any_of', 'all_of', 'none_of', 'distance') 
                ok = ok or par.get('k') == 'call' and par['fn'].split('::')[-1] == 'insert' and par.get('o') is not None and (BYPTR.match(strip(par['o']['t'])) or UNORDERED.match(strip(par['o']['t'])))
                loop = [y for y in up if y['k'] in ('for', 'while')]
                if loop and not ok: ok = order_free(loop[-1].get('body'))
                c.require(bool(ok), '%s enumerates a container and %s' % (f['fn'], why), 'C08', where, sure=not sorts)
            if x['k'] == 'call' and x['fn'] in ('std::sort', 'std::stable_sort', 'llvm::sort', 'llvm::stable_sort', 'std::__cxx11::list::sort', 'std::nth_element', 'std::partial_sort'):
                t = x['a'][0].get('t', '') if x.get('a') else ''
                el = first_arg(t) if '<' in t else t
                pe = is_ptr(el) if not el.endswith('**') else True
                if '__normal_iterator' in t: pe = el.strip().endswith('**') or (el.strip().endswith('*') and is_ptr(el.strip()[:-1]))
                n = len(x['a'])
                if pe and (n == 2 or t.startswith('llvm') and n == 1): c.require(False, '%s sorts pointers by address' % f['fn'], 'C08', where)
            if x['k'] in ('bin', 'opcall') and x['op'] in ('<', '>', '<=', '>=') and len(x['a']) == 2 and all(is_ptr(strip(y.get('t', ''))) and 'iterator' not in y.get('t', '') for y in x['a']):
                if any(strip(y['t']).replace('const ', '').rstrip('* ') in ('char',) for y in x['a']): continue
                c.require(False, '%s orders pointers by address' % f['fn'], 'C08', where, sure=not to_log(up))


@ob('C08', 'nothing in the output is an address, a time, a random number, or a property of the environment of the run')
def environment(c):
    for f in c.F.functions.values():
        c.functions.add(f['fn'])
        for part in whole(f):
            if part is None: continue
            for x, up in nodes(part):
                c.checked += x['k'] in ('call', 'opcall', 'ctor')
                where = '%s:%d' % (rel(f['f']), x.get('l') or f['l'])
                if x['k'] == 'call' and not x.get('rp'):
                    n = x['fn'].split('::')[-1]
                    if n in CHANGING and not (n in ('now', 'time', 'clock', 'hash_value') and x['fn'].startswith('clang')):
                        c.require(False, '%s uses %s' % (f['fn'], x['fn']), 'C08', where, sure=not to_log(up))
                    if x['fn'].startswith('std::') and n == 'to_string' or n in ('utohexstr', 'utostr', 'itostr', 'hexdigit'):
                        for y, _ in nodes(x.get('a', [])):
                            if y['k'] == 'cast' and is_ptr(y['e'].get('t', '')) and not is_ptr(y.get('t', '')): c.require(False, '%s turns an address into text' % f['fn'], 'C08', where, sure=not to_log(up))
                if x['k'] == 'opcall' and x['op'] == '<<' and len(x['a']) == 2:
                    t = strip(x['a'][1].get('t', ''))
                    if 'ostream' in x['a'][0].get('t', '') and not x.get('rp') and t.endswith('*') and '(' not in t and not re.match(r'^(const |unsigned |signed )*char', t) and (x.get('pm') or ['p'])[-1] in ('p', 'P'):
                        c.require(False, '%s writes an address' % f['fn'], 'C08', where, sure=not to_log(up + (x,)))
                if x['k'] in ('ctor',) and CHANGING_TYPES.match(strip(x.get('t', ''))): c.require(False, '%s uses %s' % (f['fn'], x['t'].split('<')[0]), 'C08', where, sure=not to_log(up))
                if x['k'] == 'opcall' and x['op'] == '()' and x['fn'].startswith('std::hash'): c.require(False, '%s uses a hash value' % f['fn'], 'C08', where, sure=not to_log(up))
    # text of the preprocessor that changes from build to build
    import glob
    for p in sorted(glob.glob(facts.REPO + '/source/*.[ch]pp')):
        s = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:[^"\\\n]|\\.)*"', lambda m: re.sub(r'[^\n]', ' ', m.group()), open(p, errors='replace').read(), flags=re.S)
        for m in re.finditer(r'\b__(DATE|TIME|TIMESTAMP)__\b', s): c.require(False, 'the time of the build is used', 'C08', '%s:%d' % (rel(p), s.count('\n', 0, m.start()) + 1))


SCALAR = re.compile(r'^(const )?(bool|char|signed char|unsigned char|short|unsigned short|int|unsigned int|long|unsigned long|long long|unsigned long long|float|double|.*\*)$')


SET_BY_OPTIONS = {('binder::Config', 'maximum_file_length')}  # see program.taking_options


@ob('C08', 'no member or variable is read before it has a value')
def initialised(c):
    F = c.F
    made = {}
    for f in F.functions.values():
        for x, up in nodes(f.get('body')):
            if x['k'] == 'ilist': made.setdefault(strip(x['t']), []).append(len(x['a']))
    def lists(n): return any(k == len(F.classes[n]['fields']) for k in made.get(n, []))
    for n, cl in F.classes.items():
        c.functions.add(n)
        ctors = [f for f in F.byname.get(n + '::' + n.split('::')[-1], [])]
        for fd in cl.get('fields', []):
            t = fd['t']
            c.checked += 1
            if not SCALAR.match(t) and t != 'binder::RequestFlags' or 'i' in fd: continue
            user = [f for f in ctors if f.get('body') is not None]
            if not user and any('i' not in x for x in cl['fields']) and lists(n) or (n, fd['n']) in SET_BY_OPTIONS: continue
            where = '%s:%d' % (rel(cl['f']), fd['l'])
            bad = []
            for f in user:
                ins = [i for i in (f.get('inits') or []) if i.get('n') == fd['n'] or i.get('m') == fd['n'] or i.get('field') == fd['n']]
                st = any(x['k'] == 'bin' and x['op'] == '=' and x['a'][0].get('k') == 'mem' and x['a'][0]['n'] == fd['n'] for x, _ in nodes(f['body']))
                if not ins and not st: bad.append(f)
            if not user or bad: c.require(False, 'the member %s of %s has no value at first' % (fd['n'], n), 'C08', where, sure=n.startswith('binder::') and (bool(bad) or any(m.get('vi') for m in cl.get('methods', []))))
    for f, l, what, kind in F.warnings:
        if kind in ('uninitialized', 'sometimes-uninitialized', 'static-self-init'): c.require(False, what, 'C08', '%s:%d' % (f, l))
