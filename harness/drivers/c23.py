"""C23: symbol tables under edit histories."""
import os, random, copy, pickle, subprocess, sys
from common import *
import tlc

TRACE_SPEC = 'T23'
RULE = ('edit histories of up to 5 symbol tables: new, add with and without id (taken, negative, far), merge, equality, lookups of present and absent ids and symbols, text and files '
        '(blank lines, tabs, any order, duplicates, malformed), copies; all tables are shown after every step; non-trivial: at least one table with 3 symbols')
OUTS = ('ids', 'fwd', 'bwd', 'n', 'res', 'syms')
POOLS = [['<eps>', 'a', 'b', 'c', 'd', 'e', 'f'],
         ['<eps>', '<blk>', '0', '1', '7', '-1', '3.5'],
         ['<eps>', '<s>', '<unk>', 'A', 'a', 'é', '中'],
         ['<eps>', '\u3000', '\xa0', '\u2028', '\x85', 'x\u3000y', '▁the'],
         ['<eps>', '#0', '#1', 'ab', 'a-b', "'", '"'],
         [(0,), (1,), (1, 2), (2,), (3,), (4, 4), (5,)],
         ['<eps>', (1,), (2, 'x'), frozenset({1}), 'a', 2.5, None]]


def MODELS(tier):
    return [dict(module='MC23', cfg='MC23.cfg' if tier == 'quick' else 'MC23_deep.cfg', workers=6, actions=['Add', 'New', 'Merge'])]


def gen(rng, tier, ctx):
    hist = tlc.simulate('MC23S', 'MC23S.cfg', ctx['wd'], 600 if tier == 'quick' else 6000, 12, ctx['seed'] + 3)
    for p in range(len(POOLS) - 2):      # a locale that is not UTF-8
        yield dict(ops=[dict(op='new', eps=0)] + [dict(op='add', t=1, s=k, has=0, i=0) for k in range(1, 7)] + [dict(op='copy', t=1), dict(op='save', t=2)], pool=p, seed=p, loc=1)
    for h in hist:
        yield dict(ops=h, pool=rng.randrange(len(POOLS)), seed=rng.randrange(10 ** 9))
    for _ in range(2000 if tier == 'quick' else 20000):
        yield dict(ops=[], n=rng.choice([4, 8, 15, 25]), pool=rng.randrange(len(POOLS)), seed=rng.randrange(10 ** 9))


LOCAL = '''
import sys, pickle, k2
t = pickle.load(open(sys.argv[1], 'rb'))
t.to_file(sys.argv[1])
pickle.dump(k2.SymbolTable.from_file(sys.argv[1]), open(sys.argv[1] + '.b', 'wb'))
'''


def elsewhere(t, fn):
    """the same round trip in a process whose locale is not UTF-8"""
    with open(fn, 'wb') as f:
        pickle.dump(t, f)
    r = subprocess.run([sys.executable, '-c', LOCAL, fn], env=dict(os.environ, LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0'), capture_output=True, text=True, errors='replace')
    if r.returncode:
        raise RuntimeError(r.stderr[-300:])
    with open(fn + '.b', 'rb') as f:
        u = pickle.load(f)
    os.remove(fn + '.b')
    return u


def choose(rng, P, tabs, deflt):
    """the next step of a random history"""
    n = len(tabs)
    if not n or rng.random() < .06:
        return dict(op='new', eps=rng.choice([deflt, deflt, rng.randrange(P)]))
    t, u = rng.randrange(n) + 1, rng.randrange(n) + 1
    r = rng.random()
    ids = [0, 1, 2, 3, 4, 5, 7, 100, -1, 2 ** 20]
    if r < .45:
        return dict(op='add', t=t, s=rng.randrange(P), has=rng.choice([0, 1]), i=rng.choice(ids))
    if r < .55 and n < 5:
        return dict(op='merge', t=t, u=u)
    if r < .65 and n < 5:
        k = rng.randrange(0, 5)
        L = [[rng.randrange(P), rng.choice(ids[:8] if rng.random() < .9 else ids)] for _ in range(k)]
        return dict(op='load', lines=L, dflt=deflt)
    if r < .72:
        return dict(op='eq', t=t, u=u)
    if r < .76 and n < 5:
        return dict(op='copy', t=t)
    if r < .80:
        return dict(op='save', t=t)
    o = rng.choice(['getid', 'getsym', 'inid', 'insym'])
    return dict(op=o, t=t, k=rng.randrange(P) if o.endswith('sym') else rng.choice(ids))


def text(rng, L, pool, bad):
    """a file with these lines"""
    out = []
    for s, i in L:
        sep = rng.choice([' ', '\t', '  ', ' \t '])
        line = pool[s] + sep + str(i)
        if rng.random() < .2:
            line = rng.choice([' ', '\t']) + line + rng.choice(['', ' ', '\t'])
        out.append(line)
        if rng.random() < .15:
            out.append(rng.choice(['', '  ', '\t']))
    if bad:
        out.insert(rng.randint(0, len(out)), rng.choice(['zz', 'zz 1 2', 'zz 1.5', 'zz q', '4', 'zz 0x3', 'zz -3']))
    return '\n'.join(out) + rng.choice(['', '\n'])


def run(c):
    torch, k2, _ = k2mods()
    T = k2.SymbolTable
    rng = random.Random(c['seed'])
    mixed = '<eps>' in POOLS[c['pool']] and not all(isinstance(x, str) for x in POOLS[c['pool']])     # symbols of several kinds have no order
    pool = sorted(POOLS[c['pool']], key=repr if mixed else None)
    strings = all(isinstance(x, str) for x in pool)
    deflt = pool.index('<eps>') if '<eps>' in pool else 0
    code = {s: i for i, s in enumerate(pool)}
    tabs, evs = [], []
    todo = c['ops']
    fn = 'c23.%d.txt' % os.getpid()

    def dump(t):
        i, s = t.ids, t.symbols
        if mixed:
            s = sorted(s, key=lambda x: code[x])
        return dict(ids=i, syms=[code[x] for x in s], fwd=[code[t[x]] if rng.random() < .5 else code[t.get(x)] for x in i], bwd=[t[x] for x in s], n=len(t), eps=code[t.eps])

    def perm(x):     # the simulated histories number symbols with epsilon 0
        return x if not c['ops'] or '<eps>' not in pool else (deflt if x == 0 else x - 1 if x <= deflt else x)
    n = len(todo) if todo else c['n']
    for k in range(n):
        e = dict(todo[k]) if todo else choose(rng, len(pool), tabs, deflt)
        o = e['op']
        if o in ('save', 'load') and not strings:
            e = dict(op='eq', t=1, u=1) if tabs else dict(op='new', eps=0)
            o = e['op']
            if todo and 'load' == todo[k]['op']:
                break           # later operands would be misnumbered
        for f in ('eps', 's'):
            if f in e:
                e[f] = perm(e[f])
        if o in ('getsym', 'insym'):
            e['k'] = perm(e['k'])
        if o == 'load':
            e['lines'] = [[perm(s), i] for s, i in e['lines']]
            e['dflt'] = deflt
            e['bad'] = int(not todo and rng.random() < .12)
        e['ok'], e['res'] = 1, 0
        try:
            t = tabs[e['t'] - 1] if 't' in e else None
            u = tabs[e['u'] - 1] if 'u' in e else None
            if o == 'new':
                tabs.append(T() if strings and e['eps'] == deflt and rng.random() < .5 else T(eps=pool[e['eps']]))
            elif o == 'load':
                s = text(rng, e['lines'], pool, e['bad'])
                if rng.random() < .5:
                    with open(fn, 'w', encoding='utf-8', newline='') as f:
                        f.write(s)
                    tabs.append(T.from_file(fn))
                else:
                    tabs.append(T.from_str(s))
            elif o == 'add':
                e['res'] = t.add(pool[e['s']], e['i']) if e['has'] else t.add(pool[e['s']])
            elif o == 'merge':
                tabs.append(t.merge(u))
            elif o == 'getid':
                e['res'] = code[t[e['k']] if rng.random() < .5 else t.get(e['k'])]
            elif o == 'getsym':
                e['res'] = t[pool[e['k']]] if rng.random() < .5 else t.get(pool[e['k']])
            elif o == 'inid':
                e['res'] = int(e['k'] in t)
            elif o == 'insym':
                e['res'] = int(pool[e['k']] in t)
            elif o == 'eq':
                e['res'] = int(t == u)
                if (t != u) == (t == u):
                    e['res'] = 2
            elif o == 'copy':
                h = rng.randrange(4 if strings else 2) if not c.get('loc') else 4
                if h == 0:
                    tabs.append(copy.deepcopy(t))
                elif h == 1:
                    tabs.append(pickle.loads(pickle.dumps(t)))
                elif h == 4:
                    tabs.append(elsewhere(t, fn))
                elif h == 2:
                    tabs.append(T.from_str(t.to_str()))
                else:
                    t.to_file(fn)
                    tabs.append(T.from_file(fn))
            elif o == 'save':
                if rng.random() < .5:
                    s = t.to_str()
                else:
                    t.to_file(fn)
                    with open(fn, encoding='utf-8', newline='') as f:
                        s = f.read()
                L = s.split('\n')
                e['file'] = [[code[x.rsplit(' ', 1)[0]], int(x.rsplit(' ', 1)[1])] for x in L[:-1]] if L[-1] == '' else []
        except (ValueError, AssertionError, KeyError) as x:
            e['ok'] = 0
            if o in ('eq', 'save', 'new', 'copy', 'inid', 'insym'):
                e['err'] = type(x).__name__
        if o == 'save' and 'file' not in e:
            e['file'] = []
        e['all'] = [dump(t) for t in tabs]
        evs.append(e)
    if os.path.exists(fn):
        os.remove(fn)
    return evs


def nontrivial(c, ev):
    return any(d['n'] >= 3 for e in ev for d in e.get('all', []))
