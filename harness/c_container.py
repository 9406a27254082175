"""Containers: reading and writing, sizing, resizing, crash safety."""
import json
import core, gen
from c_group import some_key, some_val

MC_CFG = '''SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTRAINT Bound
CONSTANTS
  MCKeys <- {keys}
  MCVals <- {vals}
  MCStarts <- {starts}
  MCResize <- {resizes}
  MCEmit = {emit}
  MCMaxGroups = {groups}
INVARIANTS PrimaryListed
PROPERTIES OnlyWritesChange WriteThenRead DeleteRemoves RejectedChangesNothing CondensedToOne
'''


def explore(rep, work, emit=True, **kw):
    a = dict(keys='KeysTwo', vals='ValsTwo', starts='StartsFew',
             resizes='ResizesFew', groups=3)
    a.update(kw)
    out, g, d = core.model_check(
        work, 'MCContainer', MC_CFG.format(emit='TRUE' if emit else 'FALSE', **a),
        workers=1 if emit else 6, heap='6g')
    rep.count(g, d)
    return core.edges(out) if emit else []


def small(rep, work):
    """The whole model, and the transitions of a part of it."""
    if rep.thorough:
        explore(rep, work, emit=False, keys='KeysThree', groups=2)
        return explore(rep, work, groups=3)
    explore(rep, work, emit=False, groups=2)
    return explore(rep, work, starts='StartsTwo', resizes='ResizesTwo', groups=2)


def schedules(rep, edges, limit=None, length=40):
    start, roots = {}, set()
    for e in edges:
        start[e['s']] = e['c']
        if e['i']:
            roots.add(e['s'])
    ws, left = gen.walks([(e['s'], json.dumps(e['o']), e['t'])
                          for e in edges], sorted(roots), rep.rng('walk'),
                         length, limit)
    rep.extra['model_transitions_to_cover'] = len(edges)
    rep.extra['model_transitions_left'] = left
    return [{'cfg': dict(start[r]), 'ops': [json.loads(o) for o in ops]}
            for r, ops in ws]


def some_group(rng, pool, strict=False, fill=6, cap=4):
    n = rng.choice([1, 2, 3, 5])
    caps = [rng.randint(1, cap) for _ in range(n)]
    items = {}
    for _ in range(rng.randint(0, fill)):
        items[tuple(some_key(rng, pool))] = some_val(rng)
    return {'caps': caps, 'strict': strict,
            'items': [[list(k), v] for k, v in items.items()]}


def some_cfg(rng, pool, strict=.3):
    if rng.random() < .3:
        return {'how': 'new', 'cap': rng.randint(1, 40),
                'most': rng.choice([1, 2, 3, 5, 50]),
                'strict': rng.random() < strict}
    groups = [some_group(rng, pool, rng.random() < .3)
              for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    p = rng.randint(0, len(groups))
    cfg = {'how': 'make', 'groups': groups, 'p': p,
           'strict': rng.random() < strict}
    if p == 0:
        cfg['prim'] = some_group(rng, pool)
    return cfg


def store(rng, cfg, kinds=('memory', 'memory', 'mapping', 'file')):
    cfg['store'] = rng.choice(kinds)
    cfg['tm'] = rng.choice(['citrine', 'plain'])
    cfg['persist'] = rng.choice([0, 1, 4])
    return cfg


def some_op(rng, pool, merges=1, tm=True):
    k = lambda: some_key(rng, pool)
    op = rng.choices(['write', 'read', 'has', 'delete', 'set_strict', 'condense',
                      'resize', 'in', 'all'],
                     [6, 5, 1, 2, .3, .6 * merges, .8 * merges, 1, 1])[0]
    if op == 'write':
        return {'op': op, 'k': k(), 'v': some_val(rng)}
    if op == 'read':
        return {'op': op, 'k': k(),
                'd': [some_val(rng)] if rng.random() < .4 else []}
    if op == 'all':
        return {'op': op}
    if op in ('has', 'in', 'delete'):
        return {'op': op, 'k': k()}
    if op == 'set_strict':
        return {'op': op, 'b': rng.random() < .4}
    e = {'op': op, 'transfer': rng.random() < .6}
    if tm:
        e['tm'] = rng.random() < .5
    if op == 'resize':
        e.update(cap=rng.choice([1, 4, 8, 16, 30, 60]),
                 most=rng.choice([1, 2, 3, 5, 50]),
                 condense=rng.random() < .5)
    return e


def random_jobs(rep, salt, n, length=40, merges=1, **kw):
    rng = rep.rng(salt)
    res = []
    for _ in range(n):
        pool = []
        some_key(rng, pool)
        cfg = store(rng, some_cfg(rng, pool, **kw))
        res.append({'cfg': cfg, 'ops': [some_op(rng, pool, merges) for _ in
                                        range(rng.randint(3, length))]})
    return res


def corrupt_merge(trace, rng):
    """Lose an object in a merge."""
    evs = [e for e in trace['ev'] if e['op'] in ('resize', 'condense')
           and e['r']['tag'] == 'groups' and e['obs']['grps'][0]['items']]
    if not evs:
        return False
    rng.choice(evs)['obs']['grps'][0]['items'].pop()
    return True


def corrupt_figures(trace, rng):
    rng.choice([e for e in trace['ev'] if 'fig' in e])['fig']['size'] += 1
    return True


CORRUPT = {'full': None, 'merge': corrupt_merge, 'figures': corrupt_figures}


def run(rep, work, jobs, mode):
    traces = core.run_driver(work, 'drv_container.py', jobs)
    rep.judge('TraceContainer', f'SPECIFICATION Spec\nCONSTANT MODE = "{mode}"\n',
              traces, work, corrupt=CORRUPT[mode])
    rep.sample(traces[0])
    rep.sample(traces[-1])
    rep.extra['operations_executed'] = sum(len(t['ev']) for t in traces)
    rep.extra['commits_refused'] = sum(x['r']['tag'] == 'Fault' for t in traces
                                       for x in t['ev'] if 'fault' in x)
    return traces


def C01(rep, work):
    big = rep.thorough
    e = small(rep, work)
    jobs = schedules(rep, e, limit=None if big else 400)
    run(rep, work, jobs + random_jobs(rep, 'map', 4000 if big else 400), 'full')
    if big:
        explore(rep, work, emit=False, keys='KeysThree')


def C07(rep, work):
    big = rep.thorough
    e = small(rep, work)
    jobs = schedules(rep, [x for x in e if x['o']['op'] not in ('read', 'has', 'in', 'all')],
                     limit=None if big else 400)
    rng = rep.rng('store')
    for j in jobs:
        if rng.random() < .3:
            store(rng, j['cfg'], ('mapping', 'file'))
            for o in j['ops']:
                o['tm'] = rng.random() < .5
    run(rep, work, jobs + random_jobs(rep, 'merge', 4000 if big else 400, 25, 6),
        'merge')


def C09(rep, work):
    """Refused and failing merges: strict groups, too small sizes, faults."""
    big = rep.thorough
    e = small(rep, work)
    # transitions that fail, and what leads to them
    jobs = schedules(rep, [x for x in e if x['r'] in ('CapacityError', 'ValueError')
                           or x['s'] != x['t']], limit=None if big else 300)
    more = random_jobs(rep, 'fail', 4000 if big else 400, 20, 8, strict=.8)
    rng = rep.rng('fault')
    for j in random_jobs(rep, 'fault', 1500 if big else 150, 12, 8):
        store(rng, j['cfg'], ('mapping', 'file'))
        for o in j['ops']:
            if o['op'] in ('resize', 'condense'):
                o['tm'] = True
                if rng.random() < .7:
                    o['fault'] = rng.choice([1, 1, 2, 2, 3, 4, 6, 9])
        more.append(j)
    run(rep, work, jobs + more, 'merge')


def C08(rep, work):
    big = rep.thorough
    explore(rep, work, emit=False, groups=3 if big else 2)
    rng = rep.rng('crash')
    jobs = []
    for j in random_jobs(rep, 'crash', 1200 if big else 120, 10, 8, strict=.2):
        store(rng, j['cfg'], ('file',))
        for o in j['ops']:
            if o['op'] in ('resize', 'condense'):
                o.update(tm=True, crash=True)
                if o['op'] == 'resize':
                    o['cap'] = rng.choice([20, 40, 70])
                if rng.random() < .2:
                    o['fault'] = rng.choice([1, 2, 3, 5])
        jobs.append(j)
    traces = run(rep, work, jobs, 'merge')
    rep.extra['crash_points'] = sum(len(x.get('crashes', ())) for t in traces
                                    for x in t['ev'])


def C06(rep, work):
    big = rep.thorough
    out, g, d = core.model_check(
        work, 'MCSizing', 'SPECIFICATION Spec\nCONSTANT N = %d\nINVARIANT Right\n'
        % (90 if big else 30))
    rep.count(g, d)
    rng, jobs, ops = rep.rng('sizes'), [], []
    n = 70 if big else 24
    for cap in range(1, n):
        for most in range(1, n):
            ops += [{'op': o, 'cap': cap, 'most': most, 'strict': (cap + most) % 2 == 0}
                    for o in ('collections', 'next', 'container')]
    for _ in range(4000 if big else 500):
        cap = rng.choice([100, 5000, 4999, 5001, 100000, 99999, 7, 150000,
                          rng.randint(1, 120000)])
        most = rng.choice([1000, 5000, 5003, 999, rng.randint(500, 6000)])
        ops.append({'op': rng.choice(['collections', 'next', 'container']),
                    'cap': cap, 'most': most, 'strict': rng.random() < .5})
        lo = rng.randint(1, 400)
        ops.append({'op': 'primes', 'lo': lo, 'hi': lo + rng.randint(0, 40)})
        ops.append({'op': 'group', 'size': rng.randint(0, 12),
                    'most': rng.randint(-1, 9), 'strict': rng.random() < .5})
        places = rng.sample(range(10), rng.randint(1, 5))
        ops.append({'op': 'custom', 'custom': [[p, rng.randint(0 if rng.random() < .1 else 1, 9)] for p in places],
                    'size': rng.randint(0, 13), 'most': rng.randint(1, 9),
                    'strict': rng.random() < .5})
        sizes = [rng.randint(1, 9) for _ in range(rng.randint(1, 5))]
        flags = rng.choice([[False], [True], [False, True]])
        ops.append({'op': 'given', 'sizes': sizes,
                    'flags': [rng.choice(flags) for _ in sizes],
                    'same': rng.random() < .1, 'at': rng.randint(0, len(sizes)),
                    'strict': rng.random() < .5})
        groups = [{'size': rng.randint(1, 9), 'strict': rng.random() < .5}
                  for _ in range(rng.randint(0, 4))]
        ops.append({'op': 'holder', 'groups': groups,
                    'primary': rng.randint(0, len(groups)),
                    'more': {'size': rng.randint(1, 9), 'strict': rng.random() < .5},
                    'strict': rng.random() < .5})
    for _ in range(600 if big else 80):
        def cap():
            return rng.choice([1, 4999, 5000, 5001, rng.randint(1, 60000)])
        ops.append({'op': 'db', 'cap': cap(), 'strict': rng.random() < .5,
                    'how': rng.choice(['create', 'new']),
                    'again': [[cap(), rng.random() < .5]
                              for _ in range(rng.choice([0, 1]))]})
    rng.shuffle(ops)
    jobs = [{'cfg': {}, 'ops': ops[i:i + 40]} for i in range(0, len(ops), 40)]
    traces = core.run_driver(work, 'drv_sizing.py', jobs)

    def corrupt(t, rng):
        e = rng.choice(t['ev'])
        e['r']['nums'] = e['r']['nums'] + [1]
        return True
    rep.judge('TraceSizing', 'SPECIFICATION Spec\n', traces, work, corrupt=corrupt)
    rep.sample({'ev': traces[0]['ev'][:6]})
    rep.extra['requests'] = len(ops)
