"""Reading from several databases at once."""
import json
import core, gen
from c_group import some_key
from c_txn import VALS

MC_CFG = '''SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CONSTANTS MCVersions = {v}
PROPERTIES OneAnswer NothingMissed ReadsChangeNothing
'''


def val(rng):
    t, m = rng.choice([v for v in VALS if v[0] != 'none'])
    return {'t': t, 'n': rng.randrange(m)}


def random_jobs(rep, n, length):
    rng = rep.rng('read')
    jobs = []
    for _ in range(n):
        nd = rng.choice([1, 2, 2, 3, 4])
        slow = [rng.random() < .15 for _ in range(nd)]
        unnamed = rng.random() < .3
        pool = [list(b'a'), list(b'b')]
        k = lambda: (rng.choice(pool[:3]) if rng.random() < .85
                     else some_key(rng, pool))
        ops = []
        for j in range(length):
            x = rng.random()
            if j == 0 or x < .12:
                dbs = rng.sample(range(1, nd + 1), rng.randint(1, nd))
                ops.append({'op': 'join', 'dbs': dbs,
                            'past': [rng.randrange(50) if rng.random() < .2
                                     and not unnamed else 0 for _ in dbs],
                            'as': rng.choice(['list', 'tuple']),
                            'own': rng.random() < .3 and not unnamed,
                            'shared': rng.random() < .4})
            elif x < .4:
                ops.append({'op': 'change', 'd': rng.randint(1, nd), 'k': k(),
                            'v': [val(rng)] if rng.random() < .8 else []})
            elif x < .55:
                ops.append({'op': 'refresh'})
            else:
                ops.append({'op': 'read', 'k': k(),
                            'multiple': rng.random() < .45,
                            'say': rng.random() < .5,
                            'timeout': rng.choice(['none', 'none', 'long',
                                                   'short'])})
        jobs.append({'cfg': {'dbs': nd, 'slow': slow, 'unnamed': unnamed}, 'ops': ops})
    return jobs


def corrupt(t, rng):
    evs = [e for e in t['ev'] if e['op'] == 'read']
    if not evs:
        return False
    r = rng.choice(evs)['r']
    if r['vals']:
        r['vals'][0]['n'] += 100
    else:
        r['tag'] = 'val'
        r['vals'] = [{'t': 'int', 'n': 77}]
    return True


def C16(rep, work):
    big = rep.thorough
    out, g, d = core.model_check(work, 'MCRead', MC_CFG.format(v=3 if big else 2),
                                 workers=1, heap='6g', timeout=800)
    rep.count(g, d)
    edges = core.edges(out)
    root = next(e['s'] for e in edges if e['i'])
    ws, left = gen.walks([(e['s'], json.dumps(e['o']), e['t']) for e in edges],
                         [root], rep.rng('walk'), 40, None if big else 150)
    rep.extra['model_transitions_to_cover'] = len(edges)
    rep.extra['model_transitions_left'] = left
    jobs = [{'cfg': {'dbs': 2, 'slow': [False, False]},
             'ops': [json.loads(o) for o in ops]} for _, ops in ws]
    jobs += random_jobs(rep, 3000 if big else 300, 25)
    traces = [t for t in core.run_driver(work, 'drv_read.py', jobs, timeout=800)
              if t['ev'] or t.get('crash')]
    rep.judge('TraceRead', 'SPECIFICATION Spec\n', traces, work, corrupt=corrupt)
    rep.sample(traces[0])
    rep.sample(traces[-1])
    rep.extra['operations_executed'] = sum(len(t['ev']) for t in traces)
    rep.extra['outcomes'] = sorted({e['r']['tag'] for t in traces
                                    for e in t['ev'] if 'r' in e})
