"""Loops: every way round a loop changes something, and what the condition looks at can change."""
from check import *
from determinism import nodes, rel

ASSIGN = {'=', '+=', '-=', '*=', '/=', '|=', '&=', '^=', '<<=', '>>=', '%=', '<<', '>>', '++', '--'}


def effect(n):
    """evaluating n may change something"""
    for x, _ in nodes(n):
        if x['k'] in ('bin', 'opcall') and x['op'] in ASSIGN and (x['op'] not in ('<<', '>>') or x['k'] == 'opcall'): return True
        if x['k'] == 'un' and x['op'] in ('++', '--'): return True
        if x['k'] == 'opcall' and x['op'] == '()': return True
        if x['k'] in ('call', 'opcall'):
            if any(m in ('r', 'P', 'x') for m in x.get('pm') or []): return True
            if x.get('o') is not None and not x.get('cm') and not x.get('st'): return True
            if x.get('rp') and x['k'] == 'call' and x.get('o') is None: return True
            if x['k'] == 'call' and not x.get('fn'): return True
        if x['k'] in ('new', 'delete', 'lambda', 'other'): return True
    return False


# paths through a statement: ways it can end, each with whether something was changed on the way
def paths(s):
    """set of (end, changed): end is 'next', 'continue' or 'exit'"""
    if s is None: return {('next', False)}
    k = s.get('k')
    if k == 'block': return seq([paths(x) for x in s.get('s', [])])
    if k == 'if':
        c = effect(s.get('c')) or effect(s.get('init')) or effect(s.get('var'))
        r = paths(s.get('then')) | (paths(s['else']) if s.get('else') else {('next', False)})
        return {(e, x or c) for e, x in r}
    if k in ('return', 'throw', 'break', 'goto'): return {('exit', True)}
    if k == 'expr' and isinstance(s.get('e'), dict) and s['e'].get('k') == 'throw': return {('exit', True)}
    if k == 'continue': return {('continue', False)}
    if k in ('for', 'while', 'do', 'forr', 'switch', 'try', 'other'):
        # an inner loop may run no round; breaks in it end it only
        ch = effect(s)
        ends = any(x['k'] in ('return', 'throw') for x, _ in nodes(s))
        return {('next', ch)} | ({('exit', True)} if ends else set())
    return {('next', effect(s))}


def seq(ps):
    cur, out = {('next', False)}, set()
    for p in ps:
        nxt = set()
        for e, x in cur:
            for e2, x2 in p:
                if e2 == 'next': nxt.add(('next', x or x2))
                else: out.add((e2, x or x2))
        cur = nxt
        if not cur: break
    return cur | out


def variables(n):
    v = set()
    for x, _ in nodes(n):
        if x['k'] == 'var': v.add(x.get('v') or x.get('g') or x.get('n'))
        if x['k'] == 'mem': v.add(x['n'])
        if x['k'] == 'this': pass
    return v


@ob('C16', 'every way round a loop changes something, and the condition of a loop without other exits looks at something that changes')
def loops(c):
    for f in c.F.functions.values():
        if not f.get('body'): continue
        for x, up in nodes(f['body']):
            if x['k'] not in ('while', 'for', 'do'): continue
            c.checked += 1
            c.functions.add(f['fn'])
            cond, inc, body = x.get('c'), x.get('inc'), x.get('body')
            where = '%s:%d' % (rel(f['f']), x['l'])
            ce = effect(cond) or effect(x.get('var'))
            ps = paths(body)
            if cond is not None and not ce and not effect(inc):
                bad = any(e in ('next', 'continue') and not ch for e, ch in ps)
                c.require(not bad, 'there is a way round the loop in %s that changes nothing' % f['fn'], 'C16', where)
            const = cond is None or cond.get('k') == 'bool' or cond.get('k') == 'int'
            exits = any(e == 'exit' for e, _ in ps)
            if not exits and not ce:
                if const:
                    if cond is None or cond.get('v'): c.require(False, 'the loop in %s never ends' % f['fn'], 'C16', where)
                else:
                    vs = variables(cond) | variables((x.get('var') or {}).get('i'))
                    mod = set()
                    calls = False
                    for part in (body, inc):
                        for y, _ in nodes(part):
                            if y['k'] in ('bin', 'opcall') and y['op'] in ASSIGN: mod |= variables(y['a'][0])
                            if y['k'] == 'un' and y['op'] in ('++', '--'): mod |= variables(y['e'])
                            if y['k'] == 'call':
                                if y.get('o') is not None: mod |= variables(y['o'])
                                for z in y.get('a') or []: mod |= variables(z)
                                if y.get('rp') or not y.get('fn'): calls = True
                            if y['k'] == 'opcall' and y['op'] == '()': calls = True
                            if y['k'] == 'ctor':
                                for z in y.get('a') or []: mod |= variables(z)
                            if y['k'] in ('lambda', 'other'): calls = True
                    local = all('#' in str(v) for v in vs)
                    if vs: c.require(bool(vs & mod) or (calls and not local), 'nothing the condition of the loop in %s looks at changes in the loop' % f['fn'], 'C16', where, sure=not calls or local)
