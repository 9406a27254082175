"""Groups and collections: dictionary behaviour, order, capacity, figures."""
import json
import core, gen

MC_CFG = '''SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  MCKeys <- {keys}
  MCVals <- {vals}
  MCCaps <- {caps}
  MCStrict <- {strict}
  MCToggle <- {toggle}
  MCEmit = {emit}
INVARIANTS Partitioned SizesAddUp {inv}
PROPERTIES Frame StrictNeverGrowsPast
'''


def explore(rep, work, emit=True, **kw):
    a = dict(keys='KeysThree', vals='ValsTwo', caps='CapsFew', strict='Both',
             toggle='Never', inv='')
    a.update(kw)
    cfg = MC_CFG.format(emit='TRUE' if emit else 'FALSE', **a)
    out, g, d = core.model_check(work, 'MCGroup', cfg,
                                 workers=1 if emit else 4)
    rep.count(g, d)
    return core.edges(out) if emit else []


def schedules(rep, edges, limit=None, length=60, keep=None):
    """Schedules that take every transition of the explored model."""
    if keep:
        # reading operations leave the state alone; keep those asked for
        edges = [e for e in edges if e['s'] != e['t'] or keep(e['o'])]
    info = {e['s']: (e['c'], e['x']) for e in edges}
    for e in edges:
        info.setdefault(e['t'], (e['c'], e['x']))
    roots = [s for s in info if 'store |-> <<>>' in s or 'store |-> << >>' in s]
    ws, left = gen.walks([(e['s'], json.dumps(e['o']), e['t'])
                          for e in edges], roots, rep.rng('walk'), length,
                         limit)
    rep.extra['model_transitions_to_cover'] = len(edges)
    rep.extra['model_transitions_left'] = left
    res = []
    for root, ops in ws:
        c, x = info[root]
        # caps come out of ToJson as a list, in order
        res.append({'cfg': {'caps': c, 'strict': x, 'how': 'direct'},
                    'ops': [json.loads(o) for o in ops]})
    return res


# ids of every kind: empty, short, shared prefixes, high bytes, long
ALPHA = 'ab\x00é￿𝄞zA/: \x7f'


def some_key(rng, pool):
    if pool and rng.random() < .7:
        return rng.choice(pool)
    n = rng.choice([0, 1, 1, 2, 3, 8, 40])
    s = ''.join(rng.choice(ALPHA) for _ in range(n))
    if rng.random() < .3:
        s = 'https://example.com/' + s
    k = list(s.encode())
    pool.append(k)
    return k


TYPES = [('int', 5), ('none', 1), ('bool', 2), ('str', 4), ('float', 3),
         ('list', 3), ('dict', 3), ('bytes', 3), ('tuple', 3)]


def some_val(rng, types=None):
    t, m = rng.choice(types or TYPES)
    return {'t': t, 'n': 0 if t == 'none' else rng.randrange(m)}


INTS = [('int', 4)]


def some_op(rng, pool, kind, vals):
    w = {'insert': 8, 'update': 4, 'pop': 3, 'popitem': 1, 'setdefault': 3,
         'get': 3, 'has_key': 2, 'clear': .2, 'set_strict': .3,
         'keys': .5, 'values': .5, 'items': .5,
         'iterkeys': .5, 'itervalues': .5, 'iteritems': .5,
         'minKey': .3, 'maxKey': .3}
    if kind == 'order':
        w.update(iterkeys=3, itervalues=3, iteritems=3, minKey=2, maxKey=2,
                 set_strict=0, pop=2, keys=0, values=0, items=0)
        if vals is INTS:
            w['byValue'] = 2
    if kind == 'strict':
        w.update(insert=10, update=8, setdefault=8, get=1, set_strict=.5,
                 iterkeys=0, itervalues=0, iteritems=0, keys=0, values=0,
                 items=0, minKey=0, maxKey=0, pop=2)
        w['set_strict'] = 1.5
    op = rng.choices(list(w), list(w.values()))[0]
    k = lambda: some_key(rng, pool)
    v = lambda: some_val(rng, vals)
    mb = lambda f, p=.5: [f()] if rng.random() < p else []
    if op in ('insert', 'setdefault'):
        return {'op': op, 'k': k(), 'v': v()}
    if op == 'update':
        n = rng.choice([0, 1, 1, 2, 3, 5])
        items = {}
        for _ in range(n):
            items[tuple(k())] = v()
        return {'op': op, 'items': [[list(a), b] for a, b in items.items()]}
    if op in ('pop', 'get'):
        # a default of None is the same as none given: left unspecified
        return {'op': op, 'k': k(),
                'd': [d for d in mb(v) if op == 'get' or d['t'] != 'none']}
    if op == 'has_key':
        return {'op': op, 'k': k()}
    if op == 'set_strict':
        own = [] if rng.random() < .5 else \
            [[rng.randrange(4), rng.random() < .5] for _ in range(2)]
        return {'op': op, 'b': rng.random() < .6, 'own': own}
    if op in ('iterkeys', 'itervalues', 'iteritems'):
        return {'op': op, 'lo': mb(k), 'hi': mb(k)}
    if op == 'minKey':
        return {'op': op, 'lo': mb(k)}
    if op == 'maxKey':
        return {'op': op, 'hi': mb(k)}
    if op == 'byValue':
        return {'op': op, 'lo': mb(v)}
    return {'op': op}


def some_cfg(rng, kind):
    how = rng.choice(['direct', 'direct', 'size', 'custom', 'collection'])
    n = 1 if how == 'collection' else rng.choice([1, 2, 3, 3, 5, 7, 11, 17])
    hi = 4 if kind == 'strict' else 12
    caps = [rng.randint(1, hi) for _ in range(n)]
    if how == 'size':
        caps = [caps[0]] * n
    return {'caps': caps, 'how': how,
            'strict': rng.random() < (.85 if kind == 'strict' else .4),
            'own': rng.choice([[True], [False], [True, False, True],
                               [False, True]]),
            'persist': rng.choice([0, 0, 1, 3])}


def random_jobs(rep, kind, n, length=45, metrics=False):
    rng = rep.rng(kind)
    res = []
    for _ in range(n):
        cfg = some_cfg(rng, kind)
        vals = INTS if kind == 'order' and rng.random() < .5 else None
        pool = []
        some_key(rng, pool)
        ops = [some_op(rng, pool, kind, vals)
               for _ in range(rng.randint(5, length))]
        if vals is not INTS:
            ops = [o for o in ops if o['op'] != 'byValue']
        if cfg['how'] == 'collection':
            # what groups add to collections is not there
            ops = [o for o in ops if o['op'] not in ('byValue',)]
        res.append({'cfg': cfg, 'ops': ops, 'metrics': metrics})
    return res


def large_jobs(rep, n):
    """Collections with room enough for every percentage."""
    rng = rep.rng('large')
    res = []
    for _ in range(n):
        c = rng.choice([1, 1, 2, 3])
        cap = rng.choice([20, 22, 29, 37, 40, 57, 83, 100, 101, 149, 200])
        cap = cap if c == 1 else min(cap, 57)
        cfg = {'caps': [cap] * c if rng.random() < .5 else
               [rng.randint(cap // 2, cap) for _ in range(c)],
               'how': 'collection' if c == 1 and rng.random() < .5 else 'direct',
               'strict': rng.random() < .2, 'persist': 0}
        ids = [list(f'{i}'.encode()) for i in range(cap * c)]
        rng.shuffle(ids)
        near = rng.choice([.59, .6, .69, .7, .79, .8, .89, .9, .99, .3])
        some = int(near * cap * c)
        v = {'t': 'int', 'n': 1}
        ops = [{'op': 'update', 'items': [[k, v] for k in ids[:some]]}]
        for k in ids[some:some + 5]:
            ops.append({'op': 'insert', 'k': k, 'v': v})
        for k in ids[:3]:
            ops.append({'op': 'pop', 'k': k, 'd': []})
        res.append({'cfg': cfg, 'ops': ops, 'metrics': True})
    return res


def corrupt_figure(trace, rng):
    e = rng.choice(trace['ev'])
    e['m']['size'] += 1
    return True


def run(rep, work, jobs, mode='full'):
    traces = core.run_driver(work, 'drv_group.py', jobs)
    rep.judge('TraceGroup', f'SPECIFICATION Spec\nCONSTANT MODE = "{mode}"\n',
              traces, work,
              corrupt=corrupt_figure if mode == 'metrics' else None)
    rep.sample(traces[0])
    rep.sample(traces[-1])
    rep.extra['operations_executed'] = sum(len(t['ev']) for t in traces)
    rep.assumptions.append('ids are strings; values are compared by type and '
                           'content for the nine kinds of value generated')


def C02(rep, work):
    big = rep.thorough
    e = explore(rep, work, keys='KeysFour' if big else 'KeysThree',
                toggle='Both' if big else 'Never')
    mut = schedules(rep, e, length=60)
    run(rep, work, mut + random_jobs(rep, 'dict', 4000 if big else 500))


def C03(rep, work):
    big = rep.thorough
    e = explore(rep, work, keys='KeysFour', caps='CapsWide', strict='No')
    jobs = schedules(rep, e, limit=None if big else 250)
    run(rep, work, jobs + random_jobs(rep, 'order', 4000 if big else 500))


def C04(rep, work):
    big = rep.thorough
    e = explore(rep, work, keys='KeysFour' if big else 'KeysThree',
                strict='Yes', toggle='Never', inv='WithinCapacity')
    quiet = {'get', 'has_key', 'iterkeys', 'itervalues', 'iteritems', 'minKey',
             'maxKey', 'byValue', 'pop', 'popitem', 'clear'}
    jobs = schedules(rep, e, keep=lambda o: o['op'] not in quiet)
    one = []
    for j in jobs:
        if len(j['cfg']['caps']) == 1:
            one.append({**j, 'cfg': {**j['cfg'], 'how': 'collection'}})
    run(rep, work, jobs + one + random_jobs(rep, 'strict', 5000 if big else 600))


def C05(rep, work):
    big = rep.thorough
    e = explore(rep, work, keys='KeysFour', toggle='Both')
    jobs = schedules(rep, e, keep=lambda o: False, limit=None if big else 200)
    for j in jobs:
        j['metrics'] = True
    run(rep, work, jobs + random_jobs(rep, 'dict', 4000 if big else 400,
                                      metrics=True)
        + large_jobs(rep, 600 if big else 80), 'metrics')
    import c_container
    more = c_container.random_jobs(rep, 'figures', 2000 if big else 200, 25, 2)
    for j in more:
        j['figures'] = True
    c_container.run(rep, work, more, 'figures')
