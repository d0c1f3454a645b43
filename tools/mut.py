#!/usr/bin/env python3
"""Development aid: runs all obligations on edited copies of the sources.
mut.py EDITS.py [name...]  where EDITS.py defines E = [(name, expected properties or '', [(file, old, new[, count])...]), ...]
Expected '' means the edit keeps the behaviour."""
import sys, os, re, shutil, subprocess, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('SRC', '/repo/source')
RUN = '''
import sys, json; sys.path.insert(0,%r); sys.path.insert(0,%r)
import check, facts
check.specs()
try: F = facts.load()
except Exception as e:
    print(json.dumps({'broken': str(e)[:600]})); sys.exit()
o = []
for ob, c, err in check.run(None, F):
    if err: o.append(['ERR', ob.name, err[0] + ' ' + err[1][-200:], [], ''])
    for tags, what, where, sure in c.finds:
        if any(k.get('status') != 'fixed' and k['obligation'] == ob.name and all(x in what for x in k['match']) for k in check.known_findings()): continue
        o.append(['SURE' if sure and tags else 'und', ob.name, what[:700], list(tags), where])
print(json.dumps({'r': o}))
''' % (V + '/lib', V + '/spec')


def one(m):
    name, exp, edits = m
    d = '/tmp/mm/' + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(SRC, d + '/source')
    for f, old, new, *n in edits:
        p = d + '/source/' + f
        s = open(p).read()
        if old not in s: s = re.sub(r'(?m)^[ \t]*//(?!pybind11::class_<std).*\n', '', s)
        if old not in s: return m, 'edit does not apply: ' + old[:80], None
        s = s.replace(old, new, n[0] if n else 1)
        open(p, 'w').write(s)
    r = subprocess.run([sys.executable, '-c', RUN], env=dict(os.environ, BINDER_REPO=d, BINDER_UNIT_CACHE='/tmp/unitcache'), capture_output=True, text=True, timeout=900)
    shutil.rmtree(d, ignore_errors=True)
    try: j = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception: return m, 'failed: ' + r.stderr[-800:], None
    if 'broken' in j: return m, 'broken: ' + j['broken'], None
    return m, None, j['r']


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    ms = [m for m in g['E'] if not sys.argv[2:] or m[0] in sys.argv[2:]]
    verbose = bool(sys.argv[2:])
    miss = 0
    os.makedirs('/tmp/unitcache', exist_ok=True)
    with ThreadPoolExecutor(7) as ex:
        for m, err, r in ex.map(one, ms):
            if err:
                print('%-28s %s' % (m[0], err))
                continue
            sure = [x for x in r if x[0] == 'SURE']
            props = sorted({p for x in sure for p in x[3]})
            exp = m[1].split()
            if exp: ok = any(p in props for p in exp)
            else: ok = not sure
            miss += not ok
            print('%-28s %s exp %-12s got %s  [und %d, err %s]' % (m[0], 'ok  ' if ok else 'MISS' if exp else 'FALSE ALARM', ' '.join(exp), ' '.join(props), sum(x[0] == 'und' for x in r), ' '.join(x[1] for x in r if x[0] == 'ERR')))
            if verbose or not ok:
                for x in r[:12 if verbose else 3]: print('      ', x[0], x[1], x[3], x[4], x[2][:600 if verbose else 260])
    print(miss, 'wrong of', len(ms))

main()
