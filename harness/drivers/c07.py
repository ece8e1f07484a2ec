"""C07: histories over a pool of automata: caches stay coherent, objects stay isolated."""
from common import *
import attrs as AT
import tlc
from drivers import c05, c08

TRACE_SPEC = 'T07'
RULE = ('histories of 12 calls generated by TLC from MC07 (reads that memoize, score/label/attribute writes in several styles, clones, dictionary and file '
        'copies, derivations) replayed on automata with random contents; after every call all other objects of the pool are compared with their records; '
        'non-trivial: a write after a read')
CASE_TIMEOUT = 60


def MODELS(tier):
    return [dict(module='MC07', cfg='MC07.cfg' if tier == 'quick' else 'MC07_deep.cfg', workers=4, actions=[])]


def gen(rng, tier, ctx):
    N = 4500 if tier == 'quick' else 15000
    H = tlc.simulate('MC07', 'MC07_sim.cfg', ctx['wd'], N, 40, ctx['seed'])
    for h in H:
        mode = rng.choice(['trop', 'log'])
        S = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            f = c08.dag(rng, mode, 0, n=rng.choice([2, 3, 3, 4, 5])) if rng.random() < .8 else rand_fsa(rng)
            if mode == 'log':
                for a in f['a']:
                    a[3] = rng.choice([1, 1, 2, 3])
            S.append(f)
        if rng.random() < .1:
            S.insert(rng.randint(0, len(S)), dict(n=0, a=[]))
        yield dict(mode=mode, vec=1 if len(S) > 1 or rng.random() < .85 else 0, f=S, hist=h, rs=rng.randrange(1 << 30),
                   aux=rng.choice([None, 'dense', 'dense', 'rag']), rg=1 if rng.random() < .3 else 0)


class Pool:
    def __init__(self, c):
        self.c, self.log = c, c['mode'] == 'log'
        self.sc = ei if self.log else si
        self.objs, self.recs, self.ev = [], [], []

    def fl(self, w):
        if self.log:
            return math.log(w) if w > 0 else -math.inf
        return -math.inf if w == NEGINF else float(w)

    def rec(self, o):
        names = set(n for n, _ in o.named_tensor_attr(include_scores=False)) | set(n for n, _ in o.named_non_tensor_attr())
        names -= {'labels', 'scores', 'labels_version'}
        r = fsa_json(o, self.sc)
        A = []
        for n in sorted(names):
            a = AT.read1(o, n)
            if n.endswith('_filler') and a['kind'] == 'obj':
                a['num'] = si(getattr(o, n))
            A.append(a)
        lab = [a[2] for f in r['f'] for a in f['a']]
        r.update(attrs=A, lsame=1 if tl(o.labels) == lab else 0, rg=1 if o.requires_grad else 0)
        return r

    def add(self, o, e):
        self.objs.append(o)
        r = self.rec(o)
        self.recs.append(r)
        e['r'] = r
        e['h' if e['op'] == 'new' else 'to'] = len(self.objs)
        self.ev.append(e)

    def look(self, skip=None, always=False):
        """everything else must be as it was"""
        for i, o in enumerate(self.objs):
            if i == skip:
                continue
            r = self.rec(o)
            if always or r != self.recs[i]:
                self.ev.append(dict(op='seen', h=i + 1, r=r))
                self.recs[i] = r

    def wrote(self, i, e):
        e['h'] = i + 1
        e['out'] = self.recs[i] = self.rec(self.objs[i])
        self.ev.append(e)


def upward(S):
    return all(a[0] < a[1] for f in S for a in f['a'])


def cyclic(f):
    adj = {}
    for a in f['a']:
        adj.setdefault(a[0], set()).add(a[1])
    seen, done = set(), set()

    def go(s):
        seen.add(s)
        for d in adj.get(s, ()):
            if d in seen and d not in done:
                return True
            if d not in seen and go(d):
                return True
        done.add(s)
        return False
    return any(go(s) for s in list(adj) if s not in seen)


def derive(P, rng, i, how):
    torch, k2, _k2 = k2mods()
    o, r = P.objs[i], P.recs[i]
    S = r['f']
    if how == 'index':
        if r['vec'] and len(S):
            return o[rng.randrange(len(S))]
    elif how == 'vec':
        if not r['vec']:
            return k2.create_fsa_vec([o] * rng.choice([1, 2]))
    elif how == 'arc_sort':
        return k2.arc_sort(o)
    elif how == 'connect':
        return k2.connect(o)
    elif how == 'add_loops':
        return k2.add_epsilon_self_loops(o)
    elif how == 'rm_loops':
        return k2.remove_epsilon_self_loops(o)
    elif how == 'reverse':
        if not any(a['kind'] in ('rag',) for a in r['attrs']):
            return k2.reverse(o)
    elif how == 'invert':
        if any(a['name'] == 'aux_labels' and a['kind'] in ('int', 'rag') for a in r['attrs']) and r['vec'] == 0:
            return k2.invert(o)
    elif how == 'index_fsa':
        if r['vec'] and len(S):
            return k2.index_fsa(o, torch.tensor([rng.randrange(len(S)) for _ in range(rng.choice([1, 2]))], dtype=torch.int32))
    elif how == 'top_sort':
        if not any(cyclic(f) or any(a[1] == 0 for a in f['a']) for f in S):
            return k2.top_sort(o)
    elif how == 'intersect':
        if len(S) <= 3 and not any(f['n'] == 0 for f in S):
            g = [rand_fsa(rng, n=3, wlo=1, whi=2, acyclic=True) for _ in S]
            if P.log:
                for f in g:
                    for a in f['a']:
                        a[3] = 0
            b = mk_vec(g) if r['vec'] else mk_vec(g)[0]
            return k2.intersect(k2.arc_sort(o), k2.arc_sort(b))
    elif how == 'rm_eps':
        if not any(cyclic(f) for f in S) and not any(a['kind'] not in ('int', 'obj', 'rag') for a in r['attrs']):
            return k2.remove_epsilon(o)
    return None


def copy_of(P, rng, i, how):
    torch, k2, _k2 = k2mods()
    import io
    o, r = P.objs[i], P.recs[i]
    if how in ('dict', 'pickle') and not r['vec']:
        if not any(a[2] == -1 for f in r['f'] for a in f['a']) or len(r['f'][0]['a']) == 0:
            return None          # a single automaton without final arcs has no tensor form of its own size
        if any(a[1] > r['f'][0]['n'] - 1 for f in r['f'] for a in f['a']):
            return None
    if how == 'clone' or how == 'to':
        return o.clone() if how == 'clone' else o.to('cpu').clone()
    if how == 'dict':
        return k2.Fsa.from_dict({k: (v.clone() if hasattr(v, 'clone') else v) for k, v in o.as_dict().items()})
    b = io.BytesIO()
    torch.save(o.as_dict(), b)
    b.seek(0)
    return k2.Fsa.from_dict(torch.load(b, weights_only=False))


def step(P, rng, kind, i, arg):
    torch, k2, _k2 = k2mods()
    o, r = P.objs[i], P.recs[i]
    S = r['f']
    N = sum(len(f['a']) for f in S)
    flat = [a for f in S for a in f['a']]
    okscores = not any(a[3] in (NAN, NONINT, POSINF) for a in flat)
    if kind == 'read':
        if not r['vec'] or not upward(S) or not okscores:
            P.ev.append(dict(op='read', h=i + 1, what='count', mode='trop', out=[int(o.num_arcs), int(o.shape[0])]))
            return
        if P.log and (not all(c08.total(f, 1000) for f in S)):
            return
        log = P.log
        dbl = rng.random() < .5
        mode = 'log' if log else 'trop'
        if arg == 'batches':
            o._get_state_batches()
            o._get_entering_arc_batches()
            return
        if arg == 'forward':
            out = [P.sc(x) for x in o.get_forward_scores(dbl, log).tolist()]
        elif arg == 'backward':
            out = [P.sc(x) for x in o.get_backward_scores(dbl, log).tolist()]
        elif arg == 'total':
            out = [P.sc(x) for x in o.get_tot_scores(dbl, log).tolist()]
        elif arg == 'post':
            t = o.get_tot_scores(dbl, log).tolist()
            p = o.get_arc_post(dbl, log).tolist()
            own = c08.per_fsa(S, 'a')
            if log:
                out = [NAN if x != x else NONINT if t[own[j]] == -math.inf and x != -math.inf else ei(x + t[own[j]]) for j, x in enumerate(p)]
            else:
                out = [si(x) for x in p]
        elif arg == 'cdf':
            n = rng.choice([1, 3, 8])
            P.ev.append(dict(op='read', h=i + 1, what='cdf', mode=mode, n=n, out=k2.random_paths(o, dbl, n).tolist()))
            return
        elif arg == 'entering':
            if log:
                return
            if rng.random() < .5:
                b = k2.shortest_path(o, dbl)
                w, rs = b.scores.tolist(), [len(f['a']) for f in arcs_json(b.arcs)]
                out, k = [], 0
                for m in rs:
                    out.append(si(sum(w[k:k + m])) if m else NEGINF)
                    k += m
                P.ev.append(dict(op='read', h=i + 1, what='entering2', mode=mode, out=out))
                return
            out = tl(o._get_entering_arcs(dbl))
        else:
            return
        P.ev.append(dict(op='read', h=i + 1, what=arg, mode=mode, out=out))
        return
    if kind == 'props':
        P.ev.append(dict(op='props', h=i + 1, out=c05.flags(o.properties)))
        return
    if kind == 'scores':
        rg = r['rg']
        w = [rng.choice([1, 1, 2, 3]) if P.log else rng.randint(-4, 4) for _ in range(N)]
        if arg == 'set' or arg == 'param':
            t = torch.tensor([P.fl(x) for x in w], dtype=torch.float32)
            rg = 0
            if arg == 'param':
                t.requires_grad_(True)
                rg = 1
            o.scores = t
        elif arg == 'imul':
            old = [a[3] for a in flat]
            if not okscores or any(abs(x) > 1000 for x in old):
                return
            if P.log:
                w = [x * x for x in old]
                k = 2
            else:
                k = rng.choice([2, -1, 3])
                if NEGINF in old:
                    return
                w = [x * k for x in old]
            if rg:
                o.scores = o.scores * k
            else:
                o.scores *= k
        else:
            if N == 0:
                return
            old = [a[3] for a in flat]
            j = rng.randrange(N)
            w = old[:j] + [w[j]] + old[j + 1:]
            if rg or rng.random() < .5:
                t = o.scores.detach().clone()
                rg = 0
            else:
                t = o.scores
            t[j] = P.fl(w[j])
            o.scores = t
        P.wrote(i, dict(op='scores', v=w, rg=rg))
    elif kind == 'labels':
        sizes = [f['n'] for f in S for a in f['a']]
        v = [rng.choice([-1, 0]) if a[1] == n - 1 else rng.choice([-1, 0, 1, 2, 3]) for a, n in zip(flat, sizes)]   # final arcs take 0 or -1 only
        if arg == 'set':
            o.labels = torch.tensor(v, dtype=torch.int32)
        else:
            if N == 0:
                return
            old = [a[2] for a in flat]
            j = rng.randrange(N)
            v = old[:j] + [v[j]] + old[j + 1:]
            t = o.labels if rng.random() < .6 else o.labels.clone()
            t[j] = v[j]
            o.labels = t
        P.wrote(i, dict(op='labels', v=v))
    elif kind == 'grad':
        if not o.scores.is_leaf:
            return
        o.requires_grad_(arg == 'on')
        P.wrote(i, dict(op='grad', on=1 if arg == 'on' else 0))
    elif kind == 'attr':
        n = rng.choice(['ia', 'ib', 'fa', 'ra'])
        if arg == 'int':
            v = [rng.randint(-3, 9) for _ in range(N)]
            a = dict(name=n, kind='int', filler=0, v=v)
            setattr(o, n, torch.tensor(v, dtype=torch.int32))
        elif arg == 'float':
            v = [rng.randint(-9, 9) for _ in range(N)]
            a = dict(name=n, kind='float', filler=0, v=v)
            setattr(o, n, torch.tensor(v, dtype=torch.float32))
        elif arg == 'rag' or (arg == 'aux' and rng.random() < .4):
            if arg == 'aux':
                n = 'aux_labels'
            v = [[rng.randint(1, 9) for _ in range(rng.choice([0, 1, 2]))] for _ in range(N)]
            a = dict(name=n, kind='rag', filler=0, v=v)
            setattr(o, n, k2.RaggedTensor(v, dtype=torch.int32) if v else k2.RaggedTensor('[ ]', dtype=torch.int32))
        elif arg == 'aux':
            v = [-1 if x[2] == -1 else rng.randint(0, 3) for x in flat]
            a = dict(name='aux_labels', kind='int', filler=0, v=v)
            o.aux_labels = torch.tensor(v, dtype=torch.int32)
        elif arg == 'filler':
            n = rng.choice(['ia', 'ib']) + '_filler'
            num = rng.choice([-7, 5, 0, 9])
            a = dict(name=n, kind='obj', filler=0, v=str(num), num=num)
            setattr(o, n, num)
        else:
            n = rng.choice([n, 'note'])
            a = dict(name=n, kind='obj', filler=0, v='x%d' % rng.randint(0, 99))
            setattr(o, n, a['v'])
        P.wrote(i, dict(op='attr', a=a))
    elif kind == 'del':
        A = [a['name'] for a in r['attrs']]
        if not A:
            return
        n = rng.choice(A)
        delattr(o, n)
        P.wrote(i, dict(op='del', name=n))
    elif kind == 'rename':
        A = [a['name'] for a in r['attrs'] if a['name'] in ('ia', 'ib', 'fa', 'ra', 'na') and a['kind'] != 'obj']
        if not A:
            return
        n = rng.choice(A)
        to = rng.choice([x for x in ('ia', 'ib', 'fa', 'ra', 'na') if x != n])
        o.rename_tensor_attribute_(n, to)
        P.wrote(i, dict(op='rename', name=n, to=to))
    elif kind == 'invert_':
        A = [a for a in r['attrs'] if a['name'] == 'aux_labels' and a['kind'] == 'int']
        if not A or any(x < -1 for x in A[0]['v']):
            return
        o.invert_()
        P.wrote(i, dict(op='invert_'))


def run(c):
    torch, k2, _k2 = k2mods()
    rng = random.Random(c['rs'])
    P = Pool(c)
    S = [dict(n=f['n'], a=[[a[0], a[1], a[2], P.fl(a[3])] for a in f['a']]) for f in c['f']]
    o = mk_vec(S)
    if not c['vec']:
        o = o[0]
    flat = [a for f in c['f'] for a in f['a']]
    AT.attach(o, AT.rand_attrs(rng, flat, aux=c['aux'], names=('ia', 'fa', 'ra', 'note')))
    if c['rg']:
        o.requires_grad_(True)
    P.add(o, dict(op='new'))
    seen = P.look
    for a in c['hist']:
        kind, h, arg = a[0], a[1], a[2]
        i = (h - 1) % len(P.objs)
        r = P.recs[i]
        n0 = len(P.ev)
        try:
            if kind == 'copy':
                x = copy_of(P, rng, i, arg)
                if x is not None:
                    P.add(x, dict(op='copy', h=i + 1, keep=1 if arg in ('clone', 'to') else 0))
            elif kind == 'derive':
                x = derive(P, rng, i, arg)
                if x is not None and not any(x is y for y in P.objs):   # an operation with nothing to do returns its operand
                    P.add(x, dict(op='new', how=arg))
            else:
                step(P, rng, kind, i, arg)
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            P.ev.append(err_event(kind, e, how=str(arg), where=[f'{t.filename.split("/")[-1]}:{t.lineno}' for t in tb][-3:]))
            return P.ev
        P.look()
    P.look(always=True)
    return P.ev


def nontrivial(c, ev):
    ops = [e['op'] for e in ev]
    W = {'scores', 'labels', 'grad', 'attr', 'del', 'rename', 'invert_'}
    return 'read' in ops and any(x in W for x in ops[ops.index('read'):])


def finding_match(f, case, ev, l):
    return False
