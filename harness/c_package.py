"""Packages and engines."""
import json
import core, gen

MC_CFG = '''SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT {emit}
CONSTANTS MCPkgs = {pkgs}
  MCEngs = {engs}
INVARIANTS Inherited Linked Complete
PROPERTIES Isolated
'''
A = 'https://a.example/ns#'
WORLD = {'classes': [
    {'ns': A + 'K1', 'py': 'K1', 'up': [1],
     'order': [1], 'says': True, 'native': ['n1'], 'parents': []},
    {'ns': A + 'K2', 'py': 'K2', 'up': [1, 2],
     'order': [2, 1], 'says': False, 'native': ['n2'],
     'parents': [1]}],
    'props': [{'ns': A + 'p-f1', 'name': 'f1'}, {'ns': A + 'p-f2',
                                                 'name': 'f2'}]}


def random_world(rng):
    n = rng.randint(1, 6)
    classes, real = [], []
    for c in range(1, n + 1):
        parents = []
        for _ in range(5):
            k = min(c - 1, rng.choice([0, 1, 1, 1, 2, 2, 3]))
            parents = rng.sample(range(1, c), k)
            try:
                t = type('T', tuple(real[p - 1] for p in parents), {})
                break
            except TypeError:
                # python cannot order these parents
                parents = []
        else:
            t = type('T', (), {})
        real.append(t)
        order = [real.index(k) + 1 for k in t.mro()[:-1]]
        up = {c}
        for p in parents:
            up |= set(classes[p - 1]['up'])
        ns = f'{A}K{c}'
        if c > 2 and rng.random() < .15:
            # another definition of the same thing, for another package
            ns = classes[rng.randrange(c - 1)]['ns']
        classes.append({'ns': ns, 'py': f'K{c}', 'up': sorted(up),
                        'order': order, 'says': rng.random() < .6,
                        'native': [f'n{c}'] if rng.random() < .6 else [],
                        'parents': parents})
    props = [{'ns': f'{A}p-f{j}', 'name': f'f{j}'}
             for j in range(1, rng.randint(2, 6))]
    return {'classes': classes, 'props': props}


def random_jobs(rep, n, length):
    rng = rep.rng('package')
    jobs = []
    for _ in range(n):
        w = random_world(rng)
        nc, np = len(w['classes']), len(w['props'])
        pkgs = engs = 0
        ops = []
        while len(ops) < length:
            x = rng.random()
            if not pkgs or (x < .25 and pkgs < 5):
                cs, seen = [], set()
                for c in rng.sample(range(1, nc + 1), rng.randint(1, nc)):
                    if w['classes'][c - 1]['ns'] not in seen:
                        seen.add(w['classes'][c - 1]['ns'])
                        cs.append(c)
                ps = rng.sample(range(1, np + 1), rng.randint(0, np))
                m = []
                for c in cs:
                    if ps and rng.random() < .6:
                        to = rng.sample(ps, rng.randint(1, len(ps)))
                        m.append({'ns': w['classes'][c - 1]['ns'],
                                  'to': [w['props'][p - 1]['ns']
                                         for p in to]})
                if rng.random() < .1:
                    # something that is not in the package
                    m.append(rng.choice([
                        {'ns': A + 'Gone', 'to': []},
                        {'ns': w['classes'][cs[0] - 1]['ns'],
                         'to': [A + 'p-gone']}]))
                    pkgs -= 1
                    seen = set()
                    m = [z for z in m if not (z['ns'] in seen
                                              or seen.add(z['ns']))
                         or z is m[-1]]
                    # one entry for each class
                    last = m[-1]
                    m = [z for z in m if z['ns'] != last['ns']] + [last]
                ops.append({'op': 'package', 'cs': cs, 'ps': ps, 'map': m,
                            'ns': f'https://p{len(ops)}.example',
                            'bare': rng.random() < .5})
                pkgs += 1
                continue
            p, q = rng.randint(1, pkgs), rng.randint(1, pkgs)
            if x < .4 and pkgs < 7:
                ops.append({'op': rng.choice(['add', 'add', 'subtract']),
                            'p': p, 'q': q})
                pkgs += 1
            elif not engs or (x < .5 and engs < 3):
                ps = [rng.randint(1, pkgs)
                      for _ in range(rng.choice([1, 1, 2, 2, 3]))]
                if rng.random() < .08:
                    ps = []
                    engs -= 1
                ops.append({'op': 'engine', 'ps': ps, 'as': rng.choice(
                    ['list', 'tuple', 'one', 'iter'])})
                engs += 1
            elif x < .62 and engs < 5 and engs:
                e, f = rng.randint(1, engs), rng.randint(1, engs)
                k = rng.choice(['addpackage', 'addengine', 'droppackage',
                                'dropengine'])
                ops.append({'op': k, 'e': e,
                            **({'p': p} if 'package' in k else {'f': f})})
                if k.startswith('add'):
                    engs += 1
            elif x < .68:
                what = rng.choice(['rename', 'namespace', 'pkgadd', 'pkgsub',
                                   'engadd', 'engsub', 'lookup', 'objects',
                                   'properties', 'again', 'index', 'nothing'])
                tag = {'rename': 'AttributeError', 'again': 'ValueError',
                       'objects': 'AttributeError', 'nothing': 'ValueError',
                       'properties': 'AttributeError',
                       'lookup': 'ValueError'}.get(what, 'TypeError')
                o = {'op': 'refuse', 'what': what, 'tag': tag, 'p': p,
                     'n': rng.randrange(4)}
                if what[:3] in ('eng', 'aga', 'ind'):
                    o['e'] = rng.randint(1, max(1, engs))
                ops.append(o)
            elif x < .76:
                pool = ([c['ns'] for c in w['classes']]
                        + [z['ns'] for z in w['props']] + [A + 'Gone'])
                ops.append({'op': 'lookup', 'p': p, 'nss': rng.sample(
                    pool, rng.choice([1, 1, 2, 3])
                    if len(pool) > 2 else 1), 'single': rng.random() < .6})
            elif x < .88:
                ops.append({'op': 'adopt', 'p': p, 'c': rng.randint(1, nc),
                            'n': rng.randrange(20),
                            'via': rng.choice(['method', 'property'])})
            elif engs > 0:
                ops.append({'op': 'read', 'e': rng.randint(1, engs),
                            'ns': rng.choice([c['ns'] for c in w['classes']]
                                             + [A + 'Gone'])})
        jobs.append({'cfg': w, 'ops': ops})
    return jobs


def corrupt(t, rng):
    evs = [e for e in t['ev'] if any(p['objs'] for p in e['pkgs'])]
    if not evs:
        return False
    o = rng.choice([o for p in rng.choice(evs)['pkgs'] for o in p['objs']])
    o['names'] = o['names'][:-1] if o['names'] else ['n9']
    return True


def C19(rep, work):
    big = rep.thorough
    out, g, d = core.model_check(
        work, 'MCPackage', MC_CFG.format(emit='Emit', pkgs=2,
                                         engs=2 if big else 1),
        workers=1, heap='8g', timeout=800)
    rep.count(g, d)
    edges = core.edges(out)
    root = next(e['s'] for e in edges if e['i'])
    ws, left = gen.walks([(e['s'], json.dumps(e['o']), e['t']) for e in edges],
                         [root], rep.rng('walk'), 12, 2500 if big else 250)
    rep.extra['model_transitions_to_cover'] = len(edges)
    rep.extra['model_transitions_left'] = left
    jobs = [{'cfg': WORLD, 'ops': [json.loads(o) for o in ops]}
            for _, ops in ws]
    jobs += random_jobs(rep, 2000 if big else 320, 22)
    traces = core.run_driver(work, 'drv_package.py', jobs, timeout=800)
    traces = [t for t in traces if t['ev'] or t.get('crash')]
    rep.judge('TracePackage', 'SPECIFICATION Spec\n', traces, work,
              corrupt=corrupt, batch=100)
    rep.sample(traces[0])
    rep.sample(traces[-1])
    rep.extra['operations_executed'] = sum(len(t['ev']) for t in traces)
    rep.extra['outcomes'] = sorted({e['r']['tag'] for t in traces
                                    for e in t['ev']})
