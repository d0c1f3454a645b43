"""Facts about the current /repo working tree: runs the clang-based extractor over every source/*.cpp and merges."""
import glob, hashlib, json, os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BINDER_REPO', '/repo')
FLAGS = ['-fno-rtti', '-std=gnu++14', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS',
         '-D__STDC_LIMIT_MACROS', '-DBINDER_VERSION_STRING="0"', '-I/usr/lib/llvm-14/include']


WARNINGS = {'uninitialized', 'sometimes-uninitialized', 'static-self-init', 'self-assign', 'self-assign-overloaded', 'self-assign-field', 'return-type', 'dangling', 'dangling-gsl', 'return-stack-address', 'infinite-recursion'}


class Broken(Exception):
    """The analysis itself cannot give an answer (exit 2)."""


class Facts:
    def __init__(self, units):
        self.functions = {}   # fk -> function
        self.byname = {}      # fn -> [function]
        self.classes = {}
        self.globals = {}
        self.units = []
        self.warnings = []    # [file, line, text, kind] of the compiler's own flow analyses
        for name, u in units:
            self.units.append(name)
            for w in u.get('warnings', []):
                if w not in self.warnings: self.warnings.append(w)
            tt = u['types']
            fix(u['functions'], tt)
            fix(u['globals'], tt)
            fix(u['classes'], tt)
            tag = os.path.basename(name)
            for f in u['functions']:
                # the variable ids are per unit; make them unique over all units
                retag(f, tag)
                if f['fk'] not in self.functions:
                    f['unit'] = tag
                    self.functions[f['fk']] = f
            for c in u['classes']:
                retag(c, tag)
                self.classes.setdefault(c['n'], c)
            for g in u['globals']:
                retag(g, tag)
                if g['n'] not in self.globals or ('i' in g and 'i' not in self.globals[g['n']]):
                    self.globals[g['n']] = g
        for f in self.functions.values():
            self.byname.setdefault(f['fn'], []).append(f)
        self.overriders = {}
        for f in self.functions.values():
            for o in f.get('ov', []):
                self.overriders.setdefault(o, []).append(f['fk'])

    def fn(self, name, first_param=None, nparams=None):
        """The one repository function with this qualified name (and first parameter type containing first_param)."""
        c = self.byname.get(name, [])
        if first_param is not None:
            c = [f for f in c if f['params'] and first_param in f['params'][0]['t']]
        if len(c) > 1 and nparams is not None: c = [f for f in c if len(f['params']) == nparams] or c
        if len(c) != 1:
            raise Broken('anchor %s%s: %d definitions found' % (name, '(' + first_param + ')' if first_param else '', len(c)))
        return c[0]


def fix(n, tt):
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            for k in ('t', 'rt', 'nt'):
                if isinstance(x.get(k), int): x[k] = tt[x[k]]
            stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            stack.extend(v for v in x if isinstance(v, (dict, list)))


def retag(n, tag):
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            v = x.get('v')
            if isinstance(v, str) and '#' in v and x.get('k') not in ('str', 'call'): x['v'] = v + '@' + tag
            if isinstance(x.get('bind'), list): x['bind'] = [b + '@' + tag for b in x['bind']]
            stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            stack.extend(v for v in x if isinstance(v, (dict, list)))


def load(repo=None):
    repo = repo or REPO
    r = subprocess.run([os.path.join(VERIF, 'build.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise Broken('extractor does not build:\n' + r.stdout)
    src = os.path.join(repo, 'source')
    files = sorted(glob.glob(src + '/*.cpp'))
    if len(files) < 8: raise Broken('only %d source files under %s' % (len(files), src))
    h = hashlib.sha256()
    for f in sorted(glob.glob(src + '/*.cpp') + glob.glob(src + '/*.hpp') + glob.glob(src + '/fmt/*')):
        h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    for x in (os.path.join(VERIF, 'extract', 'extract.cpp'), os.path.abspath(__file__)): h.update(open(x, 'rb').read())
    cache = os.path.join(VERIF, '.build', 'facts-' + h.hexdigest()[:24] + '.json')
    if os.path.exists(cache):
        try:
            return Facts(json.load(open(cache)))
        except Exception:
            pass
    def unit_cache(f):
        # development only (tools/mut.py)
        d = os.environ.get('BINDER_UNIT_CACHE')
        if not d: return None
        h = hashlib.sha256()
        for x in [f] + sorted(glob.glob(src + '/*.hpp') + glob.glob(src + '/fmt/*')) + [os.path.join(VERIF, 'extract', 'extract.cpp'), os.path.abspath(__file__)]: h.update(open(x, 'rb').read() + b'\0')
        return os.path.join(d, os.path.basename(f) + h.hexdigest()[:24])
    tmp = tempfile.mkdtemp(prefix='facts', dir=os.path.join(VERIF, '.build'))
    try:
        def one(f):
            out = os.path.join(tmp, os.path.basename(f) + '.json')
            uc = unit_cache(f)
            if uc and os.path.exists(uc): return (os.path.relpath(f, repo), json.loads(open(uc).read().replace('@SRC@', src)))
            p = subprocess.run([os.path.join(VERIF, '.build', 'extract'), src, out, f, '--'] + FLAGS + ['-I' + src, '-resource-dir', '/usr/lib/llvm-14/lib/clang/14.0.6', '-Wuninitialized', '-Wsometimes-uninitialized', '-Wself-assign', '-Wreturn-type', '-Wdangling'],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode or not os.path.exists(out): raise Broken('cannot parse %s:\n%s' % (f, p.stdout[-2000:]))
            u = json.load(open(out))
            if u['errors']: raise Broken('errors in %s:\n%s' % (f, p.stdout[-2000:]))
            u['warnings'] = [[os.path.relpath(a, repo) if a.startswith('/') else a, int(b), d, e] for a, b, d, e in re.findall(r'^(\S+?):(\d+):\d+: warning: (.*) \[-W([\w-]+)\]$', p.stdout, re.M) if e in WARNINGS]
            if uc:
                with open(uc + '.tmp%d' % os.getpid(), 'w') as o: o.write(json.dumps(u).replace(src, '@SRC@'))
                os.rename(uc + '.tmp%d' % os.getpid(), uc)
            return (os.path.relpath(f, repo), u)
        with ThreadPoolExecutor(8) as ex:
            units = list(ex.map(one, files))
        if os.environ.get('BINDER_UNIT_CACHE'): return Facts(units)
        for old in glob.glob(os.path.join(VERIF, '.build', 'facts-*.json')):
            try:
                os.unlink(old)
            except OSError:
                pass
        with open(cache + '.tmp%d' % os.getpid(), 'w') as o: json.dump(units, o)
        os.rename(cache + '.tmp%d' % os.getpid(), cache)
        return Facts(units)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    f = load()
    print(len(f.functions), 'functions', len(f.classes), 'classes', len(f.globals), 'globals')
    for k in sorted(f.functions): print(k, f.functions[k]['f'], f.functions[k]['l'])
