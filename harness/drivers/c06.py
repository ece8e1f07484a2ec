"""C06: attributes follow arcs, through chains of operations on a pool of automata."""
from common import *
from attrs import *

TRACE_SPEC = 'T06'
RULE = ('chains of 3-8 random operations over a pool of automata and batches (every attribute kind, with fillers, empty automata), each result '
        'becoming an operand of later steps; direct calls of the propagation helpers with arbitrary arc maps incl. -1; raw index operations '
        '(1-D/2-D, strided, all dtypes); non-trivial: a result arc with an attribute exists')
CASE_TIMEOUT = 20
UN = ['connect', 'top_sort', 'arc_sort', 'add_loops', 'rm_loops', 'reverse', 'index', 'index_fsa', 'shortest_path', 'closure']


def MODELS(tier):
    return [dict(module='MC06', cfg='MC06.cfg' if tier == 'quick' else 'MC06_deep.cfg', workers=4, actions=['Derive'])]


def leaf(rng, ns, prefix='', aux=None, names=('ia', 'ib', 'fa', 'ra', 'note')):
    S = []
    for _ in range(ns):
        if rng.random() < .08:
            S.append(dict(n=0, a=[]))
            continue
        f = rand_fsa(rng, n=rng.choice([2, 3, 3, 4, 5]), nsym=2, eps=rng.choice([0, .3]), acyclic=rng.random() < .75,
                     narcs=rng.choice([1, 3, 5, 8]))
        for a in f['a']:
            if a[3] > 0:
                a[3] = -a[3]
        if rng.random() < .8:
            coreach_fix(rng, f)
        S.append(arc_sorted(f))
    arcs = [a for f in S for a in f['a']]
    return dict(f=S, at=rand_attrs(rng, arcs, names, aux=aux, prefix=prefix))


def gen(rng, tier, ctx):
    N = 4000 if tier == 'quick' else 30000
    for i in range(N):
        if rng.random() < .2:
            yield dict(kind='raw', steps=[raw(rng) for _ in range(8)])
            continue
        ns = rng.choice([1, 1, 2, 3])
        c = dict(kind='chain', leaf=leaf(rng, ns, aux=rng.choice([None, 'dense', 'dense', 'rag'])), single=1 if ns == 1 and rng.random() < .7 else 0,
                 seed=rng.randrange(1 << 30), steps=[])
        for _ in range(rng.choice([3, 4, 5, 6, 8])):
            op = rng.choice(UN + UN + ['rm_eps', 'rm_eps_loops', 'vec', 'cat', 'clone', 'dict', 'detach', 'invert', 'to_ragged', 'to_ragged', 'rename', 'set', 'del',
                             'unary_direct', 'unary_direct', 'ragged_direct', 'ragged_direct', 'binary_direct', 'binary_direct', 'binary_direct',
                             'intersect', 'compose', 'union', 'expand'])
            st = dict(op=op, x=rng.randrange(100), y=rng.randrange(100), r=rng.randrange(1 << 30))
            if op in ('intersect', 'compose', 'binary_direct'):
                nb = rng.choice([1, 1, 2, 3])
                names = ('ia', 'ib', 'fa', 'ra', 'note')
                over = rng.random() < .3
                st['b'] = leaf(rng, nb, prefix='b', aux=rng.choice([None, 'dense']) if op == 'compose' else None, names=names)
                if over:
                    n2 = rng.choice(['fa', 'fa', 'ia', 'note'])
                    nb_arcs = sum(len(f['a']) for f in st['b']['f'])
                    st['b']['at'][n2] = {'fa': ['float', None, [rng.randint(-9, 9) for _ in range(nb_arcs)]],
                                         'ia': ['int', None, [rng.randint(1, 9) for _ in range(nb_arcs)]],
                                         'note': ['obj', None, 'bnote']}[n2]
                st['bsingle'] = 1 if nb == 1 and rng.random() < .7 else 0
            c['steps'].append(st)
        yield c


def raw(rng):
    op = rng.choice(['index_select', 'index_select', 'index_select2', 'index_add', 'index_add2', 'compose_arc_maps', 'ragged_index', 'index_and_sum',
                     'simple_ragged_index'])
    n, m = rng.choice([0, 1, 1, 2, 3, 5]), rng.choice([0, 1, 2, 4, 7])
    idx = [rng.randrange(-1, n) for _ in range(m)]
    d = rng.choice(['int32', 'int64', 'float32', 'float64', 'bool']) if op.startswith('index_select') else rng.choice(['int32', 'float32', 'float64'])
    lim = 1 if d == 'bool' else 9
    strides = [1] if d == 'bool' or op == 'index_and_sum' else [1, 1, 2, 3]
    w = rng.choice([1, 2, 3])
    v = lambda k: [rng.randint(0 if d == 'bool' else -9, lim) for _ in range(k)]
    s = dict(op=op, idx=idx, dtype=d, stride=rng.choice(strides), default=rng.choice([0, 0, 1]) if d == 'bool' else rng.choice([0, 0, 5, -1]))
    if op == 'index_select' or op == 'compose_arc_maps':
        s['src'] = v(n)
        if op == 'compose_arc_maps':
            s['src'] = [rng.randrange(-1, 9) for _ in range(n)]
    elif op == 'index_select2':
        s['src'] = [v(w) for _ in range(n)]
        s['w'] = w
    elif op == 'index_add':
        s['src'], s['acc'] = v(m), v(n)
    elif op == 'index_add2':
        s['src'], s['acc'], s['w'] = [v(w) for _ in range(m)], [v(w) for _ in range(n)], w
    elif op == 'simple_ragged_index':
        s['dtype'] = rng.choice(['int32', 'float32'])
        s['src'] = [rng.choice([0, 0, 3, 4]) for _ in range(n)]
        s['rag'] = []
        for _ in range(m):   # at most one non-zero per list
            L = [rng.randrange(n) for _ in range(rng.choice([0, 1, 2, 3]))] if n else []
            nz = [x for x in L if s['src'][x]]
            s['rag'].append([x for x in L if not s['src'][x] or x == nz[0]][:3] if len(nz) <= 1 else [nz[0]])
    else:
        s['src'] = v(n)
        s['rag'] = [[rng.randrange(-1 if op != 'index_and_sum' else 0, n) for _ in range(rng.choice([0, 1, 2, 3]))] if n else [] for _ in range(m)]
        if op == 'index_and_sum':
            s['dtype'] = rng.choice(['float32', 'float64'])
        else:
            s['dtype'] = 'int32'
    return s


def names_of(fsa):
    L = [n for n, _ in fsa.named_tensor_attr(include_scores=False)]
    L += [n for n, _ in fsa.named_non_tensor_attr()]
    return L


def rec(fsa):
    return dict(fsa_json(fsa), attrs=[read1(fsa, n) for n in sorted(set(names_of(fsa)))])


def ids_of(fsa, name):
    v = read1(fsa, name)
    if v['kind'] == 'int':
        return [[x] if x else [] for x in v['v']]
    if v['kind'] == 'rag':
        return v['v']
    return None


def mk(L, single):
    a = mk_vec(L['f'])
    if single:
        a = a[0]
    attach(a, L['at'])
    return a


def run(c):
    if c['kind'] == 'raw':
        return [run_raw(s) for s in c['steps']]
    torch, k2, _k2 = k2mods()
    rng = random.Random(c['seed'])
    pool, last = [], []
    evs = []

    def renew(x, name='id'):
        if hasattr(x, name + '_filler'):
            pass
        else:
            setattr(x, name + '_filler', 0)
        setattr(x, name, torch.arange(1, x.arcs.num_elements() + 1, dtype=torch.int32))

    def add(x):
        if any(x is p for p in pool):
            x = x.clone()
        renew(x)
        pool.append(x)
        last.append(rec(x))
        evs.append(dict(op='new', h=len(pool), r=last[-1]))

    a = mk(c['leaf'], c['single'])
    add(a)
    for stp in c['steps']:
        op = stp['op']
        xi = stp['x'] % len(pool)
        x = pool[xi]
        r = random.Random(stp['r'])
        vec = len(x.shape) == 3
        ev = dict(op=op, h=xi + 1, x=rec(x))
        before = ev['x']
        chg = before != last[xi]
        nar = x.arcs.num_elements()
        o = None
        inplace = False
        try:
            if op in ('connect', 'arc_sort', 'reverse', 'closure'):
                if op == 'closure' and (vec or any(a[1] == 0 for f in ev['x']['f'] for a in f['a'])):
                    continue
                o = getattr(k2, op)(x)
            elif op == 'top_sort':
                if any(a[0] >= a[1] for f in ev['x']['f'] for a in f['a']):
                    continue
                o = k2.top_sort(x)
            elif op == 'add_loops':
                o = k2.add_epsilon_self_loops(x)
            elif op == 'rm_loops':
                o = k2.remove_epsilon_self_loops(x)
            elif op == 'union':
                if not vec or not ev['x']['f'] or any(f['n'] == 0 for f in ev['x']['f']):
                    continue
                o = k2.union(x)
            elif op in ('rm_eps', 'rm_eps_loops'):
                if any(a[0] >= a[1] for f in ev['x']['f'] for a in f['a']):
                    continue
                o = k2.remove_epsilon(x) if op == 'rm_eps' else k2.remove_epsilon_and_add_self_loops(x)
            elif op == 'shortest_path':
                if not vec or any(a[0] >= a[1] for f in ev['x']['f'] for a in f['a']) or x.arcs.num_elements() == 0:
                    continue
                o = k2.shortest_path(x, True)
            elif op == 'index':
                if not vec or not ev['x']['f']:
                    continue
                ev['i'] = r.randrange(len(ev['x']['f']))
                o = x[ev['i']]
            elif op == 'index_fsa':
                if not vec or not ev['x']['f']:
                    continue
                ev['i'] = [r.randrange(len(ev['x']['f'])) for _ in range(r.choice([1, 1, 2, 4]))]
                o = k2.index_fsa(x, torch.tensor(ev['i'], dtype=torch.int32))
            elif op in ('vec', 'cat'):
                same = [i for i, p in enumerate(pool) if (len(p.shape) == 3) == (op == 'cat')
                        and {(n, type(v).__name__, getattr(v, 'dtype', None)) for n, v in p.named_tensor_attr()} ==
                        {(n, type(v).__name__, getattr(v, 'dtype', None)) for n, v in x.named_tensor_attr()} and
                        (op == 'cat' or all(getattr(p, n, v) == v for n, v in x.named_non_tensor_attr()) and
                         all(getattr(x, n, v) == v for n, v in p.named_non_tensor_attr()))]
                if vec != (op == 'cat') or not same:
                    continue
                L = [r.choice(same) for _ in range(r.choice([1, 2, 3]))]
                ev['hs'] = [i + 1 for i in L]
                o = (k2.create_fsa_vec if op == 'vec' else k2.cat)([pool[i] for i in L])
            elif op in ('clone', 'detach'):
                o = getattr(x, op)()
                if op == 'detach':
                    ev['same'] = 1
            elif op == 'dict':
                if not vec and not any(a[2] == -1 for f in ev['x']['f'] for a in f['a']):
                    continue   # the tensor form has no place for states without arcs
                o = k2.Fsa.from_dict(x.as_dict())
            elif op == 'invert':
                if not hasattr(x, 'aux_labels') or not isinstance(x.aux_labels, torch.Tensor):
                    continue
                o = x.invert()
            elif op == 'expand':
                rag = [n for n, v in x.named_tensor_attr() if isinstance(v, k2.RaggedTensor)]
                if not rag or r.random() < .4:
                    continue
                o = k2.expand_ragged_attributes(x)
                ev['rag'] = rag
            elif op == 'to_ragged':
                N = [n for n, v in x.named_tensor_attr() if isinstance(v, torch.Tensor) and v.dtype == torch.int32 and n != 'id']
                if not N:
                    continue
                ev['name'], ev['rme'] = r.choice(N), r.randint(0, 1)
                x.convert_attr_to_ragged_(ev['name'], remove_eps=bool(ev['rme']))
                inplace = True
            elif op == 'rename':
                N = [n for n, v in x.named_tensor_attr(include_scores=False) if n not in ('id', 'aux_labels')]
                if not N:
                    continue
                ev['name'], ev['to'] = r.choice(N), 'zz%d' % r.randrange(50)
                if any(n.startswith(ev['to']) for n in names_of(x)) or any(n.startswith(ev['name']) and n not in (ev['name'], ev['name'] + '_filler')
                                                                           for n in names_of(x)):
                    continue
                x.rename_tensor_attribute_(ev['name'], ev['to'])
                inplace = True
            elif op == 'set':
                ev['name'] = r.choice(['ia', 'fa', 'ra', 'new%d' % r.randrange(3)])
                k = r.choice(['int', 'float', 'rag'])
                v = [r.randint(1, 9) for _ in range(nar)] if k != 'rag' else [[r.randint(1, 9) for _ in range(r.choice([0, 1, 2]))] for _ in range(nar)]
                ev['v'] = dict(name=ev['name'], kind=k, v=v)
                attach(x, {ev['name']: [k, None, v]})
                inplace = True
            elif op == 'del':
                N = [n for n in names_of(x) if n not in ('id', 'id_filler')]
                if not N:
                    continue
                ev['name'] = r.choice(N)
                delattr(x, ev['name'])
                inplace = True
            elif op in ('unary_direct', 'ragged_direct', 'binary_direct'):
                n = r.choice([0, 1, 2, 3, 5])
                if op == 'unary_direct':
                    m = [r.randrange(-1, nar) for _ in range(n)]
                    arcs = [[0, 1, -1, (sc_of(ev['x'], m[k]))] for k in range(n)]
                    t = torch.tensor(m, dtype=torch.int32)
                    o = k2.utils.fsa_from_unary_function_tensor(x, mk_ragged_arc([dict(n=2, a=arcs)]), t)
                    ev['m'] = m
                elif op == 'ragged_direct':
                    m = [[r.randrange(nar) for _ in range(r.choice([0, 1, 2, 3]))] if nar else [] for _ in range(n)]
                    arcs = [[0, 1, -1, sum(sc_of(ev['x'], y) for y in z)] for z in m]
                    t = k2.RaggedTensor(m, dtype=torch.int32) if m else k2.RaggedTensor('[ ]', dtype=torch.int32)
                    ev['rm'] = r.randint(0, 1)
                    o = k2.utils.fsa_from_unary_function_ragged(x, mk_ragged_arc([dict(n=2, a=arcs)]), t, remove_filler=bool(ev['rm']))
                    ev['rag'] = m
                else:
                    b = mk(stp['b'], stp['bsingle'])
                    ev['b'] = rec(b)
                    nb = b.arcs.num_elements()
                    ma = [r.randrange(-1, nar) for _ in range(n)]
                    mb = [r.randrange(-1, nb) for _ in range(n)]
                    arcs = [[0, 1, -1, sc_of(ev['x'], i) + sc_of(ev['b'], j)] for i, j in zip(ma, mb)]
                    ev['ma'], ev['mb'] = ma, mb
                    o = k2.utils.fsa_from_binary_function_tensor(x, b, mk_ragged_arc([dict(n=2, a=arcs)]), torch.tensor(ma, dtype=torch.int32),
                                                                 torch.tensor(mb, dtype=torch.int32))
                    ev['b2'] = rec(b)
            elif op in ('intersect', 'compose'):
                b = mk(stp['b'], stp['bsingle'])
                ev['b'] = rec(b)
                nx, nb = (len(ev['x']['f']), len(stp['b']['f']))
                if (vec and len(b.shape) == 3 and nx != nb and nx != 1 and nb != 1) or not ev['x']['f']:
                    continue
                if op == 'compose' and (not hasattr(x, 'aux_labels') or not isinstance(x.aux_labels, torch.Tensor)):
                    continue
                if op == 'intersect' and hasattr(x, 'aux_labels') and hasattr(b, 'aux_labels'):
                    continue
                ev['xaux'] = [] if op == 'intersect' else tl(x.aux_labels)
                if op == 'intersect':
                    x2 = k2.arc_sort(x)
                    o = k2.intersect(x2, b, treat_epsilons_specially=bool(r.randint(0, 1)))
                else:
                    o = k2.compose(x, b, treat_epsilons_specially=bool(r.randint(0, 1)))
                ev['b2'] = rec(b)
            if not inplace:
                ids = ids_of(o, 'id')
                ev['ids'] = ids if ids is not None else [[]]
                if 'b' in ev:
                    bids = ids_of(o, 'bid')
                    ev['bids'] = bids if bids is not None else [[]]
                ev['out'] = rec(o)
            else:
                ev['out'] = rec(x)
        except Exception as e:
            ev.update(err=type(e).__name__, msg=str(e)[:160])
        ev['x2'] = rec(x)
        # a record equal to the one the pool already has is left out of the trace
        if inplace:
            last[xi] = ev['x2']
            del ev['x2']
        elif ev['x2'] == before:
            del ev['x2']
        if 'b2' in ev and ev['b2'] == ev['b']:
            del ev['b2']
        if not chg:
            del ev['x']
        evs.append(ev)
        if 'err' in ev and inplace:
            break
        if o is not None and 'err' not in ev and o.arcs.num_elements() <= 60:
            if op == 'detach':   # a view: give it its own storage before it goes on
                o = o.clone()
            add(o)
    end = [rec(p) for p in pool]
    evs.append(dict(op='audit', n=len(end), rs=[dict(h=i + 1, r=r) for i, r in enumerate(end) if r != last[i]]))
    return evs


def sc_of(r, k):
    if k < 0:
        return 0
    for f in r['f']:
        if k < len(f['a']):
            return f['a'][k][3]
        k -= len(f['a'])


def run_raw(s):
    torch, k2, _k2 = k2mods()
    ev = dict(s)
    dt = getattr(torch, s['dtype'])
    idx = torch.tensor(s['idx'], dtype=torch.int32)

    def strided(L, w=None):
        t = torch.tensor(L, dtype=dt) if L else torch.zeros((0,) if w is None else (0, w), dtype=dt)
        if s['stride'] == 1:
            return t
        big = torch.full((t.shape[0] * s['stride'],) + tuple(t.shape[1:]), 77 if dt != torch.bool else 1, dtype=dt)
        big[::s['stride']] = t
        return big[::s['stride']]
    try:
        op = s['op']
        if op == 'index_select':
            o = k2.index_select(strided(s['src']), idx, s['default'])
            ev['out'], ev['dt2'] = [si(x) for x in o.tolist()], str(o.dtype)[6:]
        elif op == 'index_select2':
            o = k2.index_select(strided(s['src'], s['w']), idx)
            ev['out'], ev['dt2'] = [[si(y) for y in x] for x in o.tolist()], str(o.dtype)[6:]
        elif op in ('index_add', 'index_add2'):
            w = s.get('w')
            acc = strided(s['acc'], w)
            k2.index_add(idx, strided(s['src'], w), acc)
            ev['out'], ev['dt2'] = ([si(x) for x in acc.tolist()] if w is None else [[si(y) for y in x] for x in acc.tolist()]), s['dtype']
        elif op == 'compose_arc_maps':
            o = k2.compose_arc_maps(torch.tensor(s['src'], dtype=torch.int32), idx)
            ev['out'], ev['dt2'] = tl(o), s['dtype']
        else:
            rag = k2.RaggedTensor(s['rag'], dtype=torch.int32) if s['rag'] else k2.RaggedTensor('[ ]', dtype=torch.int32)
            if op == 'index_and_sum':
                o = k2.ragged.index_and_sum(strided(s['src']), rag)
                ev['out'], ev['dt2'] = [si(x) for x in o.tolist()], str(o.dtype)[6:]
            elif op == 'ragged_index':
                o = k2.ragged.index(torch.tensor(s['src'], dtype=torch.int32), rag, default_value=s['default'])
                ev['out'], ev['dt2'] = o.tolist(), s['dtype']
            else:
                o = _k2.simple_ragged_index_select(strided(s['src']), rag)
                ev['out'], ev['dt2'] = [si(x) for x in o.tolist()], str(o.dtype)[6:]
    except Exception as e:
        ev.update(err=type(e).__name__, msg=str(e)[:160])
    return ev


def nontrivial(c, ev):
    return c['kind'] == 'raw' or any('out' in e and any(f['a'] for f in e['out']['f']) for e in ev)
