#!/usr/bin/env python3
"""Development aid: generic mutations of the sources, line by line; prints those no obligation reports.
automut.py FILE... [--lines A-B] [--ops op,op] [--only EARLIER] [--out FILE]"""
import sys, os, re, json, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('SRC', '/repo/source')
src = open(V + '/tools/mut.py').read()
g = {'__file__': V + '/tools/mut.py', '__name__': 'm'}
exec(src.replace('\nmain()\n', '\n'), g)


def strip_comments(s):
    """positions of code: comments blanked (strings kept)"""
    out, i = list(s), 0
    while i < len(s):
        if s.startswith('//', i):
            j = s.find('\n', i); j = len(s) if j < 0 else j
            for k in range(i, j): out[k] = ' '
            i = j
        elif s.startswith('/*', i):
            j = s.find('*/', i) + 2
            for k in range(i, j):
                if out[k] != '\n': out[k] = ' '
            i = j
        elif s.startswith('R"(', i):
            i = s.find(')"', i) + 2
        elif s[i] == '"':
            i += 1
            while s[i] != '"': i += 2 if s[i] == '\\' else 1
            i += 1
        elif s[i] == "'" :
            i += 1
            while s[i] != "'": i += 2 if s[i] == '\\' else 1
            i += 1
        else: i += 1
    return ''.join(out)


def close(s, i):
    """index after the parenthesis that opens at i"""
    d, k = 0, i
    while k < len(s):
        if s[k] == '"':
            k += 1
            while s[k] != '"': k += 2 if s[k] == '\\' else 1
        elif s[k] == "'" and s[k+1:k+3] and (s[k+2] == "'" or s[k+1] == '\\'):
            k += 1
            while s[k] != "'": k += 2 if s[k] == '\\' else 1
        elif s[k] == '(': d += 1
        elif s[k] == ')':
            d -= 1
            if d == 0: return k + 1
        k += 1


def mutants(f, ops):
    s = open(SRC + '/' + f).read()
    c = strip_comments(s)
    line = lambda i: s.count('\n', 0, i) + 1
    def m(op, i, j, new): return (op, line(i), i, j, new)
    for x in re.finditer(r'\bif\(|\bif \(|\bwhile\(', c):
        p = c.index('(', x.start()); e = close(c, p)
        if not e or 'LLVM_VERSION' in c[p:e] or c[:x.start()].endswith('#'): continue
        inner = c[p + 1:e - 1]
        if re.match(r'\s*(auto|\w+(::\w+)*( const)? \*)', inner) and '=' in inner:
            yield m('never', e, e, ' if(false)')
            continue
        yield m('negate', p, e, '( not (' + inner + ') )')
        if x.group().startswith('if'): yield m('always', p, e, '( true or (' + inner + ') )')
        if x.group().startswith('if'): yield m('never', p, e, '( false and (' + inner + ') )')
        # drop one operand
        d, last, cut = 0, 0, []
        for y in re.finditer(r'[()]|\b(and|or)\b|&&|\|\|', inner):
            if y.group() == '(': d += 1
            elif y.group() == ')': d -= 1
            elif d == 0: cut.append((y.start(), y.end()))
        if cut:
            b = [0] + [k for _, k in cut]; t = [k for k, _ in cut] + [len(inner)]
            for n in range(len(b)):
                parts = [inner[b[k]:t[k]] for k in range(len(b))]
                opss = [inner[a:z] for a, z in cut]
                del parts[n]; del opss[max(0, n - 1)]
                new = parts[0]
                for o, q in zip(opss, parts[1:]): new += o + q
                yield m('drop', p, e, '(' + new + ')')
    for x in re.finditer(r'\b(and|or)\b|&&(?=[^&]*[\w(])(?! *[),>])|\|\|', c):
        new = {'and': 'or', 'or': 'and', '&&': '||', '||': '&&'}[x.group()]
        yield m('andor', x.start(), x.end(), new)
    for x in re.finditer(r'\n\t+([^\n]*;)[ \t]*(?=\n)', c):
        t = x.group(1)
        if re.match(r'(using|typedef|static|#|else|for|return|string \w+;|std::vector)', t): continue
        if re.match(r'if\(|if \(|for\(|while\(', t):
            continue
        yield m('delete', x.start(1), x.end(1), ';')
    for x in re.finditer(r'(?:if|for|while)\( ?', c):
        p = c.index('(', x.start()); e = close(c, p)
        if not e: continue
        y = re.match(r' [^{};\n]+;', c[e:])
        if y and 'LLVM_VERSION' not in c[p:e]: yield m('delbody', e, e + y.end(), ' ;')
    for x in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', c):
        b = s.rfind('\n', 0, x.start()) + 1
        ln = c[b:x.start()]
        if '#include' in ln or 'errs()' in ln or 'outs()' in ln or 'throw' in ln: continue
        t = x.group(1)
        if len(t) > 1: yield m('str', x.start(), x.end(), '"' + t[:-1] + '"' if t[-2] != '\\' else '"x' + t + '"')
        yield m('strx', x.start(), x.end(), '"' + t + 'x"')
    for x in re.finditer(r'==|!=', c): yield m('eq', x.start(), x.end(), '!=' if x.group() == '==' else '==')
    for x in re.finditer(r'(?<=[\w\]\) ])(<=?|>=?)(?= ?[\w(])', c):
        ln = c[c.rfind('\n', 0, x.start()) + 1:c.find('\n', x.end())]
        if not re.search(r'for\(|size|length|count|depth|level', ln): continue
        for n in {'<': ['<=', '>'], '<=': ['<'], '>': ['>=', '<'], '>=': ['>']}[x.group()]: yield m('cmp', x.start(), x.end(), n)
    for x in re.finditer(r'(?<![\w."])\b([0-9]+)\b(?![\w."])', c):
        ln = c[c.rfind('\n', 0, x.start()) + 1:c.find('\n', x.end())]
        if 'LLVM' in ln or '#' in ln: continue
        yield m('num', x.start(), x.end(), str(int(x.group()) + 1))
        if int(x.group()): yield m('num', x.start(), x.end(), str(int(x.group()) - 1))
    for x in re.finditer(r'\b(true|false)\b', c): yield m('bool', x.start(), x.end(), 'false' if x.group() == 'true' else 'true')
    for x in re.finditer(r'\bcontinue;', c): yield m('break', x.start(), x.end(), 'break;')
    for x in re.finditer(r'\bbreak;', c): yield m('nobreak', x.start(), x.end(), ';')
    for x in re.finditer(r'\bnot |(?<=[( ])!(?=[\w(])', c): yield m('not', x.start(), x.end(), '')
    for x in re.finditer(r'\breturn ([^;\n]+);', c):
        if x.group(1) not in ('true', 'false', '""', "0"): yield m('ret', x.start(1), x.end(1), '{}')
    for x in re.finditer(r'([-+] ?1)\b(?! ?\*)', c): yield m('pm', x.start(), x.end(), '')


def one(a):
    f, (op, l, i, j, new), k = a
    d = '/tmp/mm/a%s_%d' % (f.replace('.', '_'), k)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copytree(SRC, d + '/source')
    p = d + '/source/' + f
    s = open(p).read(); t = s[:i] + new + s[j:]
    open(p, 'w').write(t)
    try: r = subprocess.run([sys.executable, '-c', g['RUN']], env=dict(os.environ, BINDER_REPO=d, BINDER_UNIT_CACHE='/tmp/unitcache'), capture_output=True, text=True, timeout=400)
    except subprocess.TimeoutExpired: return a, 'timeout', None
    finally: shutil.rmtree(d, ignore_errors=True)
    try: q = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception: return a, 'failed ' + r.stderr[-300:], None
    if 'broken' in q: return a, 'broken', None
    return a, None, q['r']


def main():
    args = sys.argv[1:]; files, lines, ops, out, only = [], None, None, None, None
    while args:
        x = args.pop(0)
        if x == '--lines': lines = tuple(map(int, args.pop(0).split('-')))
        elif x == '--ops': ops = set(args.pop(0).split(','))
        elif x == '--only': only = set(re.findall(r'^MISS (\S+):(\d+) (\w+)  ', open(args.pop(0)).read(), re.M))
        elif x == '--out': out = args.pop(0)
        else: files.append(x)
    todo = []
    for f in files:
        seen = set()
        for m in mutants(f, ops):
            if m[1:] in seen: continue
            seen.add(m[1:])
            if ops and m[0] not in ops or lines and not lines[0] <= m[1] <= lines[1]: continue
            if only and (f, str(m[1]), m[0]) not in only: continue
            todo.append((f, m, len(todo)))
    os.makedirs('/tmp/unitcache', exist_ok=True)
    o = open(out, 'w') if out else sys.stdout
    n = dict(caught=0, missed=0, broken=0, error=0)
    with ThreadPoolExecutor(7) as ex:
        for (f, (op, l, i, j, new), k), err, r in ex.map(one, todo):
            s = open(SRC + '/' + f).read()
            old = s[i:j]
            what = '%s:%d %s  %s -> %s | %s' % (f, l, op, old.strip()[:70].replace('\n', ' '), new.strip()[:70].replace('\n', ' '), s[s.rfind('\n', 0, i) + 1:s.find('\n', i)].strip()[:110])
            if err == 'broken': n['broken'] += 1; continue
            if err: n['error'] += 1; print('ERROR', err, what, file=o, flush=True); continue
            sure = [x for x in r if x[0] == 'SURE']
            if sure: n['caught'] += 1
            else:
                n['missed'] += 1
                print('MISS', what, '[und %d err %s]' % (sum(x[0] == 'und' for x in r), ' '.join(x[1] for x in r if x[0] == 'ERR')), file=o, flush=True)
    print(n, file=o, flush=True)

main()
