"""Objects as dictionaries and JSON text."""
import json
import core, gen

MC_CFG = '''SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT {emit}
CONSTANTS MCObjs = {objs}
INVARIANTS Determined Respected
PROPERTIES Reading
'''
S = lambda s: {'k': 'str', 's': s}
WORLD = {'classes': [
    {'parents': [], 'order': [1], 'native': ['a', 'aid', 'hidden'],
     'fixed': [], 'trans': []},
    {'parents': [1], 'order': [2, 1], 'native': ['b', 'viewed'],
     'fixed': [['a', S('fixed')]],
     'trans': [[['viewed', 'wrap']]]}],
    'kind': [['hidden', 'hide'], ['viewed', 'view']]}
NAMES = ['a', 'b', 'c', 'd', 'e', 'name', 'context', 'acon', 'text', 'aid',
         'atype', 'agraph', 'alanguage', 'to', 'x']


def value(rng, objs, depth=0):
    x = rng.random()
    if depth < 3 and x < .32:
        n = rng.choice([0, 1, 1, 2, 3])
        l = [value(rng, objs, depth + 1) for _ in range(n)]
        k = rng.choice(['list', 'list', 'tuple', 'map', 'map', 'set', 'iter'])
        if k == 'map':
            ks = rng.sample(NAMES + ['acontext', '@id', ''], n)
            return {'k': 'map', 'm': [[a, b] for a, b in zip(ks, l)],
                    'x': rng.choice([0, 0, 0, 1, 2])}
        if k == 'set':
            return {'k': 'set', 'l': sorted(
                [S(s) for s in rng.sample(['p', 'q', 'r', ''], n)],
                key=json.dumps)}
        return {'k': k, 'l': l}
    if x < .5 and objs:
        return {'k': 'obj', 'o': rng.choice(objs)}
    return rng.choice([
        {'k': 'none'}, {'k': 'bool', 'b': rng.random() < .5},
        {'k': 'num', 'n': rng.choice([0, 2, 5, -3, 70000])},
        {'k': 'float', 'f': rng.choice(['0.5', '2.5', '-1.5'])},
        {**S(rng.choice(['', 'p', 'q', 'text', 'a "b" \\ \n é', ': , ',
                       'Long ' * 300])),
         'x': int(rng.random() < .15)},
        {'k': 'other', 's': rng.choice(
            ['2024-02-03', '1.50', '2020-01-01 00:00:00', 'odd', '',
             'long ' * 300])}])


def trans(rng):
    """Transformations of some properties."""
    return [[n, rng.choice(['wrap', 'word', 'drop'])]
            for n in rng.sample(NAMES, rng.randint(1, 5))]


def random_jobs(rep, n, length):
    rng = rep.rng('json')
    jobs = []
    for _ in range(n):
        nc = rng.randint(1, 5)
        classes, real, kind = [], [], {}
        for c in range(1, nc + 1):
            for _ in range(6):
                parents = rng.sample(range(1, c), min(c - 1, rng.choice(
                    [0, 1, 1, 1, 2])))
                try:
                    t = type('T', tuple(real[p - 1] for p in parents), {})
                    break
                except TypeError:
                    continue
            else:
                parents, t = [], type('T', (), {})
            real.append(t)
            order = [real.index(k) + 1 for k in t.mro()[:-1]]
            native = rng.sample(NAMES, rng.randint(0, 5))
            mine = {x for a in order[1:] for x in classes[a - 1]['native']}
            fixed = [[x, value(rng, [], 2)] for x in sorted(mine - set(native))
                     if rng.random() < .15]
            fixed = [f for f in fixed if f[1]['k'] in ('str', 'num', 'bool')]
            for f in fixed:
                f[1].pop('x', 0)
            classes.append({'parents': parents, 'order': order,
                            'native': native, 'fixed': fixed,
                            'trans': [trans(rng)] if rng.random() < .2
                            else []})
        for x in NAMES:
            if rng.random() < .25:
                kind[x] = rng.choice(['view', 'view', 'hide', 'hide', 'fail'])
        cfg = {'classes': classes, 'kind': sorted(map(list, kind.items()))}
        of, ops = [], []
        names = lambda o: sorted({x for a in classes[of[o - 1] - 1]['order']
                                  for x in classes[a - 1]['native']})
        while len(ops) < length:
            x = rng.random()
            if not of or (x < .12 and len(of) < 5):
                of.append(rng.randint(1, nc))
                ops.append({'op': 'new', 'c': of[-1]})
                continue
            o = rng.randint(1, len(of))
            own = names(o)
            if x < .55 and own:
                # objects refer to later ones only, so there are no cycles
                ops.append({'op': 'set', 'o': o, 'n': rng.choice(own),
                            'v': value(rng, list(range(o + 1, len(of) + 1)))})
            elif x < .62:
                ops.append({'op': 'get', 'o': o,
                            'n': rng.choice(own + ['acontext'])})
            elif x < .68:
                pool = own + ['acontext'] + (
                    NAMES if rng.random() < .3 else [])
                ns = rng.sample(pool, min(len(pool), rng.choice([1, 1, 2, 3])))
                ops.append({'op': 'index', 'o': o, 'ns': sorted(set(ns)),
                            'as': rng.choice(['one', 'list', 'tuple'])})
            elif x < .72:
                ops.append({'op': 'items', 'o': o})
            else:
                some = lambda p: (rng.sample(NAMES + ['acontext'],
                                             rng.randint(1, 6))
                                  if rng.random() < p else [])
                out = ['A', '@b', 'other name', 'c2', '@type2']
                rng.shuffle(out)
                ren = [[a, b] for a, b in zip(
                    rng.sample(NAMES + ['acontext'], 4), out)
                    ] if rng.random() < .35 else []
                p = {'include': some(.3), 'exclude': some(.3), 'rename': ren,
                     'none': rng.random() < .3, 'json': True, 'reject': [],
                     'trans': trans(rng) if rng.random() < .3 else []}
                e = {'op': 'data', 'o': o, 'p': p,
                     'as': rng.choice(['list', 'tuple', 'set']),
                     'bare': rng.random() < .5}
                y = rng.random()
                if y < .4:
                    if rng.random() < .4:
                        p['reject'] = [v for v in (
                            value(rng, [], rng.choice([2, 3]))
                            for _ in range(4)) if v['k'] in (
                                'str', 'none') or v.get('n', 0) > 1]
                        for v in p['reject']:
                            v.pop('x', 0)
                    p['json'] = rng.random() < .7
                elif y < .5:
                    p.update(include=[], exclude=[], rename=[], none=False,
                             trans=[])
                    e['text'] = 'str'
                else:
                    e['text'] = 'json'
                    e['min'] = rng.random() < .4
                    e['indent'] = 0 if e['min'] else rng.choice([0, 0, 2, 4])
                ops.append(e)
        jobs.append({'cfg': cfg, 'ops': ops})
    return jobs


def corrupt(t, rng):
    evs = [e for e in t['ev'] if e['r'].get('v', {}).get('m')]
    if not evs:
        return False
    m = rng.choice(evs)['r']['v']['m']
    if rng.random() < .5:
        del m[-1]
    else:
        m[-1][0] += '?'
    return True


def C20(rep, work):
    big = rep.thorough
    out, g, d = core.model_check(
        work, 'MCJson', MC_CFG.format(emit='Emit', objs=2), workers=1,
        heap='8g', timeout=800)
    rep.count(g, d)
    edges = core.edges(out)
    root = next(e['s'] for e in edges if e['i'])
    ws, left = gen.walks([(e['s'], json.dumps(e['o']), e['t']) for e in edges],
                         [root], rep.rng('walk'), 40, 2500 if big else 200)
    rep.extra['model_transitions_to_cover'] = len(edges)
    rep.extra['model_transitions_left'] = left
    jobs = []
    for n, (_, ops) in enumerate(ws):
        ops = [json.loads(o) for o in ops]
        for j, o in enumerate(ops):
            if o['op'] == 'data':
                p = o['p']
                p['rename'] = [[a, b] for a, b in dict(p['rename']).items()]
                p['trans'] = [[a, b] for a, b in dict(p['trans']).items()]
                if not p['reject'] and (n + j) % 2:
                    o['text'] = 'json'
                    o['min'] = (n + j) % 4 == 1
        jobs.append({'cfg': WORLD, 'ops': ops})
    jobs += random_jobs(rep, 3000 if big else 400, 30)
    traces = core.run_driver(work, 'drv_json.py', jobs, timeout=800)
    rep.judge('TraceJson', 'SPECIFICATION Spec\n', traces, work,
              corrupt=corrupt, batch=150)
    rep.sample(traces[0])
    rep.sample(traces[-1])
    rep.extra['operations_executed'] = sum(len(t['ev']) for t in traces)
    rep.extra['outcomes'] = sorted({e['r']['tag'] for t in traces
                                    for e in t['ev']})
