#!/usr/bin/env python3
"""Development aid: edits that keep the behaviour, applied to every place of a file at once; prints alarms, and the single places that raise them.
autoref.py FILE... [--ops op,op]"""
import sys, os, re, json, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('SRC', '/repo/source')
g = {'__file__': V + '/tools/automut.py', '__name__': 'm'}
exec(open(V + '/tools/automut.py').read().replace('\nmain()\n', '\n'), g)
strip_comments, close, RUN = g['strip_comments'], g['close'], g['g']['RUN']


def brace(s, i):
    d, k = 0, i
    while k < len(s):
        if s.startswith('R"(', k): k = s.find(')"', k) + 1
        elif s[k] == '"':
            k += 1
            while s[k] != '"': k += 2 if s[k] == '\\' else 1
        elif s[k] == "'" and (s[k+2] == "'" or s[k+1] == '\\'):
            k += 1
            while s[k] != "'": k += 2 if s[k] == '\\' else 1
        elif s[k] == '{': d += 1
        elif s[k] == '}':
            d -= 1
            if d == 0: return k + 1
        k += 1


def stmt_end(c, e):
    """end of the statement that starts at e"""
    while c[e] in ' \t\n': e += 1
    if c[e] == '{': return brace(c, e)
    m = re.match(r'(if|for|while)\s*\(', c[e:])
    if m:
        x = stmt_end(c, close(c, c.index('(', e)))
        y = re.match(r'\s*else\b', c[x:])
        if m.group(1) == 'if' and y: return stmt_end(c, x + y.end())
        return x
    d, k = 0, e
    while True:
        if c[k] == '"':
            k += 1
            while c[k] != '"': k += 2 if c[k] == '\\' else 1
        elif c[k] == "'":
            k += 1
            while c[k] != "'": k += 2 if c[k] == '\\' else 1
        elif c[k] in '({[': d += 1
        elif c[k] in ')}]': d -= 1
        elif c[k] == ';' and d == 0: return k + 1
        k += 1


def ifs(c):
    for x in re.finditer(r'\bif ?\(|\belse if ?\(', c):
        p = c.index('(', x.start()); e = close(c, p)
        b = c.rfind('\n', 0, x.start()) + 1
        if not e or 'LLVM_VERSION' in c[p:e] or '#' in c[b:x.start()]: continue
        yield x, p, e, c[p + 1:e - 1]


def isdecl(t): return bool(re.match(r'\s*(?:const )?(auto|[\w:]+( const)?\s*\*|[\w:<>]+ (const )?[*&]?\w+ =[^=])', t)) and re.search(r'[^=!<>]=[^=]', t)


def sites(op, c):
    if op == 'notnot':
        for x, p, e, t in ifs(c):
            if not isdecl(t): yield p, e, '( not ( not (' + t + ') ) )'
    elif op == 'lambda':
        for x, p, e, t in ifs(c):
            if not isdecl(t): yield p, e, '( [&]() -> bool { return bool(' + t + '); }() )'
    elif op == 'condvar':
        for x, p, e, t in ifs(c):
            if isdecl(t) or x.group().startswith('else') or c[:x.start()].rstrip().endswith('else') or c[:x.start()].rstrip()[-1:] not in ';{}': continue
            if re.search(r'(for|while|if) ?\([^\n;{}]*\)\s*$', c[:x.start()]): continue
            yield x.start(), e, 'bool const vp_c%d = bool(%s);\nif( vp_c%d )' % (x.start(), t, x.start())
    elif op == 'swap':
        for x, p, e, t in ifs(c):
            if isdecl(t): continue
            a = stmt_end(c, e)
            y = re.match(r'\s*else\b(?!\s*if)', c[a:])
            if y:
                z = stmt_end(c, a + y.end())
                yield p, z, '( not (' + t + ') ) {' + c[a + y.end():z] + '}\nelse {' + c[e:a] + '}'
    elif op == 'demorgan':
        for x, p, e, t in ifs(c):
            if isdecl(t): continue
            d, cut = 0, []
            for y in re.finditer(r'[()]|\b(and|or)\b', re.sub(r'"(?:[^"\\]|\\.)*"', lambda m: '_' * len(m.group()), t)):
                if y.group() == '(': d += 1
                elif y.group() == ')': d -= 1
                elif d == 0: cut.append(y)
            ks = {y.group() for y in cut}
            if len(ks) != 1: continue
            b = [0] + [y.end() for y in cut]; z = [y.start() for y in cut] + [len(t)]
            o = 'or' if ks == {'and'} else 'and'
            yield p, e, '( not (' + (' %s ' % o).join('not (' + t[i:j].strip() + ')' for i, j in zip(b, z)) + ') )'
    elif op == 'nest':
        for x, p, e, t in ifs(c):
            if isdecl(t) or ' or ' in t or '||' in t: continue
            a = stmt_end(c, e)
            if re.match(r'\s*else\b', c[a:]) or x.group().startswith('else') : continue
            m = re.search(r' and ', t)
            if not m or t[:m.start()].count('(') != t[:m.start()].count(')'): continue
            if c[:x.start()].rstrip().endswith('else'): continue
            yield p, a, '(' + t[:m.start()] + ') { if( ' + t[m.end():] + ') {' + c[e:a] + '} }'
    elif op == 'block':
        for x, p, e, t in ifs(c):
            a = stmt_end(c, e)
            if c[e:a].lstrip().startswith('{') or isdecl(t): continue
            if re.search(r'^\s*(if|for|while)', c[e:a]): continue
            yield e, a, ' {\n' + c[e:a] + '\n}'
    elif op == 'append':
        for x in re.finditer(r'\n(\t+)(\w+|code\(\)) \+= ', c):
            z = stmt_end(c, x.end())
            if '\n' in c[x.start(2):z] and '#' in c[x.start(2):z]: continue
            yield x.start(2), z, '%s = %s + (%s);' % (x.group(2), x.group(2), c[x.end():z - 1])
    elif op == 'append2':
        for x in re.finditer(r'\n(\t+)(\w+|code\(\)) \+= ', c):
            z = stmt_end(c, x.end())
            if '#' in c[x.start(2):z]: continue
            yield x.start(2), z, '%s.append(%s);' % (x.group(2), c[x.end():z - 1])
    elif op == 'retvar':
        for x in re.finditer(r'\n(\t+)return ([^;{}\n]+);', c):
            if x.group(2).count('"') % 2 or x.group(2) in ('true', 'false', '""') or 'static_cast' in x.group(2) or 'nullptr' in x.group(2): continue
            pre = c[:x.start()].rstrip()
            if pre[-1:] not in ';{}': continue
            yield x.start(2) - 7, x.end(), '{ auto vp_r = %s;\nreturn vp_r; }' % x.group(2)
    elif op == 'size':
        for x in re.finditer(r'(?<![\w.>!])(?:not |!)?([\w.]+(?:->\w+)*(?:\(\))?(?:\.\w+)*)\.size\(\)(?= *(\)|and|or|\?))', c):
            if x.group().startswith(('not ', '!')): yield x.start(), x.end(), x.group(1) + '.empty()'
            elif re.search(r'(if\(|and|or|\() *$', c[:x.start()]): yield x.start(), x.end(), '!' + x.group(1) + '.empty()'
    elif op == 'isa':
        for x in re.finditer(r'\b(?:clang::)?isa<([\w:]+)>\(([^()]*(?:\([^()]*\))*[^()]*)\)', c): yield x.start(), x.end(), '(dyn_cast<%s>(%s) != nullptr)' % (x.group(1), x.group(2))
    elif op == 'inc':
        for x in re.finditer(r'; \+\+(\w+) ?\)', c): yield x.start(), x.end(), '; %s++ )' % x.group(1)
    elif op == 'gt':
        for x in re.finditer(r'for\( ?uint i = 0; i < ([^; ]+); ', c): yield x.start(), x.end(), 'for( uint i = 0; %s > i; ' % x.group(1)
    elif op == 'bound':
        for x in re.finditer(r'for\( ?uint i = 0; i < ([^; ]+); ', c): yield x.start(), x.end(), 'for( uint i = 0, vp_n = %s; i < vp_n; ' % x.group(1)
    elif op == 'hoist':
        for x in re.finditer(r'for\( ?auto (\w+) = ([^;]+?); (\w+) ?!= ([^;]+?); ', c):
            if ',' in x.group(2): continue
            yield x.start(), x.end(), 'for( auto %s = %s, vp_end = %s; %s != vp_end; ' % (x.group(1), x.group(2), x.group(4), x.group(1))
    elif op == 'iter':
        for x in re.finditer(r'for\( ?(auto(?: const)? ?&? ?)(\w+) : ([\w.()>-]+?) ?\)(\s*)(?=\{)', c):
            yield x.start(), x.end() + 1, 'for( auto vp_it = %s.begin(); vp_it != %s.end(); ++vp_it ) { %s%s = *vp_it; ' % (x.group(3), x.group(3), x.group(1), x.group(2))
    elif op == 'while':
        for x in re.finditer(r'\n(\t+)for\( ?([^;()]+); ([^;]+); (\+\+\w+) ?\)\s*\{', c):
            o = x.end() - 1; z = brace(c, o)
            if 'continue' in c[o:z]: continue
            yield x.start(1), z, '{ %s; while( %s ) %s %s; } }' % (x.group(2), x.group(3), c[o:z - 1], x.group(4))
    elif op == 'noop':
        for x in re.finditer(r'\n\{\n', c): yield x.start(), x.end(), '\n{\n\tint vp_unused = 0; (void)vp_unused;\n'
    elif op == 'helper':
        # the body moves to a helper, the function calls it
        for x in re.finditer(r'\n((?:[\w:<>,*& ]+?)[ &*])(\w+)\(([^(){};]*)\)\n\{\n', c):
            if x.group(2) in ('main',) or 'operator' in x.group(1) or '::' in x.group(1).split('<')[0] and '::' in x.group(0).split('(')[0].split()[-1]: continue
            ps = []
            for q in split_params(x.group(3)):
                m = re.search(r'(\w+)\s*$', q)
                if not m or q.strip() in ('void', ''): ps = None if q.strip() not in ('void', '') else ps; break
                ps.append(m.group(1))
            if ps is None: continue
            if any(' ' not in q.strip() for q in split_params(x.group(3)) if q.strip()): continue
            z = brace(c, x.end() - 2)
            body = c[x.end() - 2:z]
            r = x.group(1).strip()
            call = '%s_impl(%s)' % (x.group(2), ', '.join(ps))
            yield x.start() + 1, z, 'static %s %s_impl(%s)\n%s\n%s %s(%s)\n{\n\t%s%s;\n}' % (r.replace('inline', '').replace('static', ''), x.group(2), x.group(3), body, r, x.group(2), x.group(3), 'return ' if r != 'void' else '', call)
    elif op == 'comment':
        yield len(c), len(c), '\n// a comment\n'


def split_params(s):
    out, d, b = [], 0, 0
    for i, ch in enumerate(s):
        if ch in '<(': d += 1
        elif ch in '>)': d -= 1
        elif ch == ',' and d == 0: out.append(s[b:i]); b = i + 1
    return out + [s[b:]]


OPS = 'comment noop notnot lambda condvar swap demorgan nest block append append2 retvar size isa inc gt bound hoist iter while helper'.split()


def apply(s, ss):
    """outermost, non-overlapping edits"""
    out, end = [], 0
    done = 0
    for b, e, n in sorted(ss):
        if b < end: continue
        out.append(s[end:b] + n); end = e; done += 1
    return ''.join(out) + s[end:], done


def run(a):
    f, op, ss, k = a
    d = '/tmp/mm/r%s_%s_%d' % (f.replace('.', '_'), op, k)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copytree(SRC, d + '/source')
    p = d + '/source/' + f
    s = strip_comments(open(p).read())
    t, done = apply(s, ss)
    open(p, 'w').write(t)
    r = subprocess.run([sys.executable, '-c', RUN], env=dict(os.environ, BINDER_REPO=d, BINDER_UNIT_CACHE='/tmp/unitcache'), capture_output=True, text=True, timeout=600)
    shutil.rmtree(d, ignore_errors=True)
    try: q = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception: return 'failed ' + r.stderr[-300:], None, done
    if 'broken' in q: return q['broken'], None, done
    return None, q['r'], done


def work(a):
    f, op = a
    c = strip_comments(open(SRC + '/' + f).read())
    raw = [(m.start(), m.end()) for m in re.finditer(r'R"(\w*)\(.*?\)\1"', c, re.S)]
    ss = [x for x in sites(op, c) if not any(a <= x[0] < b for a, b in raw)]
    lines = []
    if not ss: return lines
    err, r, done = run((f, op, ss, 0))
    def report(err, r, what):
        if err: return '%s %s: %s' % (f, op, what) + ' BROKEN ' + err[:400].replace('\n', ' | ')
        sure = [x for x in r if x[0] == 'SURE']; und = [x for x in r if x[0] != 'SURE']
        return '%s %s: %s %s  und %s' % (f, op, what, 'ALARM ' + ' ; '.join('%s %s %s %s' % (x[1], ','.join(x[3]), x[4], x[2][:200]) for x in sure[:3]) if sure else 'quiet', sorted({x[1] + ('!' + x[2][:60] if x[0] == 'ERR' else '') for x in und}))
    lines.append(report(err, r, '%d of %d places' % (done, len(ss))))
    if err or any(x[0] == 'SURE' for x in r) or r:
        for k, s in enumerate(ss):
            e1, r1, _ = run((f, op, [s], k + 1))
            ln = c.count('\n', 0, s[0]) + 1
            if e1: 
                if not err: continue
                lines.append('   %d BROKEN %s' % (ln, e1[:200].replace('\n', ' | ')) if '-v' in sys.argv else '   %d broken' % ln)
            elif r1: lines.append('   ' + report(None, r1, 'line %d' % ln))
    return lines


def main():
    args = sys.argv[1:]; files, ops = [], OPS
    while args:
        x = args.pop(0)
        if x == '--ops': ops = args.pop(0).split(',')
        elif x == '-v': pass
        else: files.append(x)
    os.makedirs('/tmp/unitcache', exist_ok=True)
    with ThreadPoolExecutor(7) as ex:
        for ls in ex.map(work, [(f, o) for f in files for o in ops]):
            for l in ls: print(l, flush=True)

main()
