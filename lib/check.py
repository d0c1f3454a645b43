"""Obligations, verdicts, evidence."""
import sys, os, json, time, traceback, importlib, glob, pickle, signal, resource, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
from spec import *
from inst import Inst, ranges_to_unroll

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OBS = []


class Missing(Exception):
    """the construct an obligation talks about is not there under its name"""


class Ob:
    def __init__(self, name, props, fn, rule): self.name, self.props, self.fn, self.rule = name, props.split(), fn, rule


def ob(props, rule, name=None):
    """register an obligation: the function decorated compares code with specification for the properties listed"""
    def deco(f):
        OBS.append(Ob(name or f.__name__, props, f, rule))
        return f
    return deco


_sums = {}


def varies(t): return any(x.op in ('p', 'this', 'elem') for x in subterms(t))


def memos(E, v):
    """static containers that remember answers: {static: [(key, value, condition, event)]} where something is entered under a key taken from the arguments and looked up again; and other statics with what is stored in them"""
    looked = set()
    for x in [v] + [y for e in E.events for y in (e.pc,) + tuple(e.args)]:
        for t in subterms(x):
            if t.op in ('has', 'at'):
                for p in engine.pieces(t.a[0]):
                    if p.op == 'static': looked.add(p)
    r, other = {}, {}
    for e in E.events:
        if e.kind != 'store' or e.fn != 'S' or e.args[1] is not EMPTY: continue
        S = mk('static', e.args[0].a[0])
        ps = engine.pieces(e.args[2])
        if S in looked and ps and ps[0] is S and len(ps) == 2 and ps[1].op == 'kv' and varies(ps[1].a[0]): r.setdefault(S, []).append((ps[1].a[0], ps[1].a[1], e.pc, e))
        else: other.setdefault(S, []).append((e.args[2], e.pc, e))
    return {S: x for S, x in r.items() if S not in other}, other


NOENTRY = mk('noentry')


def fresh(t, memos):
    """t as it is when nothing is remembered"""
    t = engine.substitute(t, {S: EMPTY for S in memos})
    m = {}
    for x in subterms(t):
        if x.op == 'at' and x.a[0] is EMPTY:
            m[x] = NOENTRY
    return engine.substitute(t, m) if m else t


class Sum:
    """the summary of one function"""

    def __init__(self, c, f, E, v, st):
        self.c, self.f, self.E, self.st = c, f, E, st
        # the value a parameter (or a member of one) has at the start of a loop iteration
        self.carry = {lv: mk('carried', k[1]) for lv, k in E.lvkeys.items() if k[0] == 'O' and k[1].op in ('p', 'this') and len(k) == 2}
        self.raw, self.memos, self.other = v, *memos(E, v)
        self.v = self.m(v)

    def m(self, t):
        if not isinstance(t, (T, B)): return t
        if self.carry: t = engine.substitute(t, self.carry)
        return fresh(t, self.memos) if self.memos else t

    @property
    def this(self): return mk('this', self.f['cls'].split('::')[-1])

    def field(self, n): return self.m(self.E.field(self.st, self.this, n))

    def pfield(self, p, n): return self.m(self.E.field(self.st, mk('p', p), n))

    def where(self): return '%s:%d' % (os.path.relpath(self.f['f'], facts.REPO), self.f['l'])

    def effects(self, names, extra=None):
        """{(name, arguments, loops): condition}"""
        out, site = {}, {}
        for e in self.E.events:
            if e.fn not in names and not (extra and extra(e)): continue

            def go(args, done, pc):
                if pc is FALSE: return
                if not args:
                    k = (e.fn, tuple(done), e.loops)
                    out[k] = out.get(k, FALSE) | pc
                    site.setdefault(k, (e.file, e.line))
                    return
                x = args[0]
                if isinstance(x, T) and x.op == 'ite':
                    go([x.a[1]] + args[1:], done, pc & x.a[0])
                    go([x.a[2]] + args[1:], done, pc & ~x.a[0])
                elif isinstance(x, T) and x.op == 'b' and x.a[0] not in (TRUE, FALSE):
                    go([mk('b', TRUE)] + args[1:], done, pc & x.a[0])
                    go([mk('b', FALSE)] + args[1:], done, pc & ~x.a[0])
                else: go(args[1:], done + [x], pc)
            go([self.m(a) for a in e.args], [], self.m(e.pc))
        return out, site


def shifted(*ts):
    """enumerations that are gone through with a position other than the one of the element"""
    out = []
    for t in ts:
        for x in subterms(t):
            if x.op == 'star' and x.a[0].op == 'range' and x.a[0] not in out and any(y.op == 'lin' and y.a[0] and any(z.op == 'idx' and z.a[0] is x.a[0] for z in subterms(y)) for y in subterms(x.a[2])): out.append(x.a[0])
    return out


class Ctx:
    """what an obligation works with"""

    def __init__(self, F):
        self.F, self.cmp = F, Compare()
        self.functions, self.finds, self.checked = set(), [], 0
        self.where, self.notes = '', []
        self.samples = []

    def fn(self, name, first=None, nparams=None):
        if name.startswith('::'): name = name[2:]; plain = True
        else: plain = False
        try: return self.F.fn(nparams=nparams, name=name if plain or name.startswith('binder::') or '::' in name and not name[0].isupper() or name in ('main',) else 'binder::' + name, first_param=first)
        except facts.Broken as e: raise Missing(str(e))

    def sum(self, name, first=None, stop=(), unstop=(), nparams=None, pc=TRUE, pre=None):
        f = self.fn(name, first, nparams)
        if nparams is not None and len(f['params']) != nparams: raise Missing('%s takes %d parameters' % (name, len(f['params'])))
        return self.summary(f, stop, unstop, pc, pre)

    def summary(self, f, stop=(), unstop=(), pc=TRUE, pre=None):
        k = (f['fk'], tuple(sorted(stop)), tuple(sorted(unstop)), pc, pre)
        s = _sums.get(k)
        if s is None:
            E = Engine(self.F, unstop=unstop)
            E.stop |= set(stop)
            v, st = E.root(f, pc=pc, pre=pre)
            s = _sums[k] = Sum(self, f, E, v, st)
        self.functions |= {f['fk']} | s.E.analysed
        self.where = s.where()
        self.info = s.E.loopinfo
        return s

    def repo_names(self):
        if not hasattr(self.F, '_short'): self.F._short = {engine.sh(f['fn']) for f in self.F.functions.values()}
        return self.F._short

    def need(self, *specs):
        """every program operation the specification mentions still exists under its name"""
        names = self.repo_names()
        for s in specs:
            for t in subterms(s):
                if t.op in ('call', 'out') and t.a[0] in engine.STOP and t.a[0] not in names: raise Missing('no function named ' + t.a[0])

    def decide(self, compare, *code):
        """run a comparison; what stays undecided because of a loop is compared again with two elements in that loop"""
        compare(self.cmp, lambda x: x)
        if self.cmp.diffs and self.info is not None:
            # a loop whose first round was taken out of it: the texts are those of other rounds, and agree for every number of them
            for R in shifted(*code):
                left = []
                for n in (0, 1, 2, 3):
                    I, sub = Inst(self.info, R, n), Compare(self.cmp.assume, self.cmp.known)
                    compare(sub, I.go)
                    left += sub.diffs
                    if left: break
                if not left: self.cmp.diffs, self.cmp.undecided = [], self.cmp.undecided + self.cmp.diffs
        if self.cmp.undecided and not self.cmp.diffs and self.info:
            f, left = (lambda x: x), list(code)
            for _ in range(3):
                rs = ranges_to_unroll(*left)
                if not rs: break
                I = Inst(self.info, rs[0], 2)
                f = (lambda g, I: lambda x: I.go(g(x)))(f, I)
                left = [I.go(x) for x in left]
                sub = Compare(self.cmp.assume, self.cmp.known | frozenset(f(t) for t in self.cmp.known if isinstance(t, T)))
                compare(sub, f)
                self.cmp.obligations += sub.obligations
                if sub.diffs:
                    self.cmp.diffs += sub.diffs
                    self.cmp.undecided = []
                    break
        self.flush()

    info = None

    def text(self, code, spec, tags, pc=TRUE):
        spec = u(spec)
        self.need(spec)
        self.checked += 1 + sum(1 for _ in subterms(spec) if _.op in ('s', 'call', 'ite', 'star', 'tag', 'item'))
        self.decide(lambda cmp, f: cmp.values(f(code), f(spec), f(cond(pc)), tuple(tags.split())), code, cond(pc))

    def cond(self, code, spec, over, under=None, what='the condition', pc=TRUE):
        spec = cond(spec)
        self.need(spec)
        self.decide(lambda cmp, f: cmp.conds(f(asb(code)), f(spec), f(cond(pc)), tuple(over.split()), what, None if under is None else tuple(under.split())), asb(code), cond(pc))

    def conj(self, code, parts, under, what, pc=TRUE):
        parts = [(p, cond(c)) for p, c in parts]
        for _, c in parts: self.need(c)
        self.decide(lambda cmp, f: cmp.conj(f(asb(code)), [(p, f(x)) for p, x in parts], under, what, f(cond(pc))), asb(code), cond(pc))

    def effects(self, s, names, specs, pc=TRUE, extra='', ignore=None):
        """specs: (name, args, loops, guard, tags if missing, tags if done without the guard)"""
        got, site = s.effects(names)
        if ignore: got = {k: g for k, g in got.items() if not ignore(k)}
        want = {}
        for n, args, loops, guard, miss, over in specs:
            k = (n, tuple(tot(u(a)) for a in args), tuple(loops))
            self.need(*k[1])
            g = cond(guard)
            if k in want: want[k] = (want[k][0] | g, miss, over)
            else: want[k] = (g, miss, over)
        pc = cond(pc)
        for k in list(want):     # inserting what a set already has changes nothing
            if k[0] == 'insert' and len(k[1]) == 2:
                new = ~has(*k[1])
                want[k] = (want[k][0] & new,) + want[k][1:]
                if k in got: got[k] = got[k] & new
        strange = {}
        for k, g in got.items():
            if k not in want and sat(g & pc) is not None:
                strange.setdefault(k[0], []).append((k, g))
        for k, (g, miss, over) in want.items():
            h = got.get(k, FALSE)
            what = '%s(%s)' % (k[0], ', '.join(show(a, 6) for a in k[1]))
            self.where = '%s:%d' % (os.path.relpath(site[k][0], facts.REPO), site[k][1]) if k in site else s.where()
            self.cmp.obligations += 2
            if sat(h & ~g & pc) is not None: self.cmp.diff(h & ~g & pc, what + ' is done', 'not to be done', tuple(over.split()))
            if sat(g & ~h & pc) is not None:
                sure = not any(any(opaque(a) for a in k2[1]) or k2[2] != k[2] for k2, g2 in strange.get(k[0], []))
                self.cmp.diff(g & ~h & pc, what + ' is not done', 'to be done', tuple(miss.split()), sure)
            self.flush()
        for n, l in strange.items():
            if extra == '': continue
            for k, g in l:
                self.where = '%s:%d' % (os.path.relpath(site[k][0], facts.REPO), site[k][1])
                self.cmp.diff(g & pc, '%s(%s) is done' % (k[0], ', '.join(show(a, 6) for a in k[1])), 'no such operation', tuple(extra.split()), not any(opaque(a) for a in k[1]))
                self.flush()

    def require(self, ok, what, tags, where=None, sure=True):
        """a plain requirement decided by the caller"""
        self.checked += 1
        if not ok: self.finds.append((tuple(tags.split()), what, where or self.where, sure))

    def flush(self):
        for d in self.cmp.diffs: self.finds.append((d.tags, repr(d), self.where, True))
        for d in self.cmp.undecided: self.finds.append((d.tags if d else (), repr(d) if d else 'comparison too large', self.where, False))
        self.cmp.diffs, self.cmp.undecided = [], []


def specs():
    for f in sorted(glob.glob(os.path.join(VERIF, 'spec', '*.py'))): importlib.import_module(os.path.basename(f)[:-3])


SECONDS, TOTAL, MEMORY = 80, 600, 5 << 30      # what one obligation and all of them may take; what is over is given up as undecided


class GaveUp(Exception): pass


class Got:
    """what is left of the work on an obligation that was done in another process"""

    def __init__(self, finds=(), n=0, checked=0, functions=(), time=0):
        self.finds, self.checked, self.functions, self.time, self.cmp = list(finds), checked, set(functions), time, Compare()
        self.cmp.obligations = n


def attempt(o, F, limit):
    """one obligation, within the limits: (ctx, error, whether to go on in this process)"""
    c, err, on, t = Ctx(F), None, True, time.time()

    def late(*a): raise GaveUp
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        try: o.fn(c)
        finally: signal.setitimer(signal.ITIMER_REAL, 0)
    except Missing as e: err = ('missing', str(e))
    except RecursionError as e: err = ('error', 'recursion')
    except (GaveUp, MemoryError) as e: err, on = ('error', 'given up: takes too much ' + ('time' if isinstance(e, GaveUp) else 'memory')), False
    except Exception as e: err = ('error', traceback.format_exc(limit=-3))
    if on: c.flush()
    c.time = time.time() - t
    return c, err, on


def work(obs, F, out, end):
    """in a child process: the obligations in turn, until one has to be given up"""
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    for i, o in obs:
        pickle.dump(('begin', i), out)
        out.flush()
        c, err, on = attempt(o, F, max(1, min(SECONDS, end - time.time())))
        pickle.dump(('end', i, [tuple(x) for x in c.finds], c.cmp.obligations, c.checked, sorted(c.functions), err, c.time), out)
        out.flush()
        if not on: return


def run(prop, F, only=None):
    """[(obligation, ctx, error)] for the obligations that concern prop (or all)"""
    todo = [(i, o) for i, o in enumerate(o for o in OBS if (not prop or prop in o.props) and (not only or o.name in only))]
    out, end = {}, time.time() + TOTAL
    names = dict(todo)
    while todo:
        if time.time() > end:
            for i, o in todo: out[i] = (o, Got(), ('error', 'given up: no time left'))
            break
        sys.stdout.flush()
        sys.stderr.flush()
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            code = 1
            try:
                os.close(r)
                with os.fdopen(w, 'wb') as fh: work(todo, F, fh, end)
                code = 0
            except BaseException: pass
            finally: os._exit(code)
        os.close(w)
        last, begun = None, time.time()
        reaper = threading.Timer(max(1, end - time.time() + 20), lambda: os.kill(pid, signal.SIGKILL))
        reaper.start()
        with os.fdopen(r, 'rb') as fh:
            while True:
                try: m = pickle.load(fh)
                except Exception: break
                if m[0] == 'begin': last = m[1]
                else:
                    last = None
                    out[m[1]] = (names[m[1]], Got(*m[2:6], m[7]), m[6])
        reaper.cancel()
        os.waitpid(pid, 0)
        if last is not None: out[last] = (names[last], Got(), ('error', 'given up: takes too much memory or time'))
        left = [(i, o) for i, o in todo if i not in out]
        if len(left) == len(todo): out[todo[0][0]], left = (todo[0][1], Got(), ('error', 'could not be worked on')), left[1:]
        todo = left
    return [out[i] for i in sorted(out)]


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main(prop, tier):
    t0 = time.time()
    sys.path.insert(0, os.path.join(VERIF, 'spec'))
    specs()
    try: F = facts.load()
    except facts.Broken as e:
        print('cannot analyse the current tree:', e)
        return 2
    res = run(prop, F)
    known = [k for k in known_findings() if k['property'] == prop and k.get('status') != 'fixed']
    viol, undec, kf = [], [], []
    for o, c, err in res:
        if err: undec.append('%s: %s: %s' % (o.name, err[0], err[1]))
        for tags, what, where, sure in c.finds:
            if tags and prop not in tags: continue
            s = '%s [%s]: %s' % (o.name, where, what)
            if not sure: undec.append(s)
            elif not tags: undec.append(s)
            else:
                k = [k for k in known if k['obligation'] == o.name and all(x in what for x in k['match'])]
                if k: kf.append(k[0])
                else: viol.append((o, where, what))
    nob = sum(c.cmp.obligations + c.checked for _, c, _ in res)
    fns = set()
    for _, c, _ in res: fns |= c.functions
    ok = nob - len(viol) - len(undec)
    samples = []
    for o, c, err in res[:40]: samples.append('%s: %s (%d obligations over %d functions)' % (o.name, o.rule, c.cmp.obligations + c.checked, len(c.functions)))
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other', 'wall_s': round(time.time() - t0, 2),
          'coverage': {'explanation': 'Static analysis of the current sources: every function named below is summarised by gated abstract interpretation over its syntax tree (all paths, loops as '
                                      'quantified terms) and the summary is compared with the specification of the property; a disagreement that does not depend on anything left uninterpreted is a violation.',
                       'rules': [o.name + ': ' + o.rule for o, _, _ in res], 'obligations': nob, 'discharged': max(ok, 0), 'undecided': undec[:50], 'violations': ['%s [%s] %s' % (o.name, w, x) for o, w, x in viol][:50],
                       'functions_analysed': sorted(fns), 'source_functions': len(F.functions), 'samples': samples, 'known_findings': [k['id'] for k in kf]}}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for k in {k['id']: k for k in kf}.values(): print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for x in undec: print('UNDECIDED', x[:300])
    if viol:
        rp = os.path.join(VERIF, 'evidence', prop + '.violation.txt')
        with open(rp, 'w') as fh:
            for o, w, x in viol: fh.write('%s\n  at %s\n  rule: %s\n  %s\n\n' % (o.name, w, o.rule, x))
        for o, w, x in viol[:10]: print('  %s at %s: %s' % (o.name, w, x[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if not nob:
        print('nothing could be decided')
        return 2
    print('%s: %d obligations, %d undecided, %d functions analysed, %.1f s' % (prop, nob, len(undec), len(fns), time.time() - t0))
    return 0


if __name__ == '__main__':
    a = sys.argv[1:]
    import check as _c      # one copy of this module
    sys.exit(_c.main(a[0], a[1] if len(a) > 1 else 'quick'))
