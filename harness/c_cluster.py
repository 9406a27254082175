"""Directories of database modules."""
import json
import core, gen

MC_CFG = '''SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS MCNames <- {names}
MCEmit = {emit}
INVARIANT LiveIsThere
PROPERTIES OthersStay ObjectsStay FilesStay AwayStays
'''
NAMES = ['a', 'b', 'aa', 'a.b', 'A b', 'ü', 'db', 'a-1', '.a']
FILES = ['f', 'readme.txt', '.hidden', 'init.py', 'data', 'xa.index']
IDS = ['k', 'k2', 'http://a.example/1', 'ü']


def cfg(rng):
    return {'root': rng.choice(['abs', 'abs', 'slash', 'rel', 'dot', 'here']),
            'compile': rng.random() < .6, 'reg': rng.choice(['none', 'dict', 'map'])}


def extra(rng, e):
    if e['op'] in ('destroypath', 'direct'):
        e['spell'] = rng.choice(['join', 'join', 'slash', 'dot', 'end', 'up', 'in', 'abs'])
    if e['op'] in ('write', 'remove', 'look'):
        e['how'] = rng.choice(['open', 'db', 'call', 'databases'])
    if e['op'] in ('create', 'destroy'):
        e['shut'] = rng.random() < .4
    if e['op'] == 'mkdir':
        e['text'] = rng.randrange(100)
    if e['op'] == 'putfile':
        # other files of the module's name are not told from the module's own
        e['dir'] = e['f'].startswith(e['n'] + '.') or rng.random() < .2
    if e['op'] == 'open':
        e['say'] = rng.random() < .5
    return e


def random_jobs(rep, n, length):
    rng = rep.rng('cluster')
    jobs = []
    for _ in range(n):
        names = rng.sample(NAMES, rng.choice([2, 3, 4]))
        ops = [{'op': 'open', 'd': rng.random() < .8, 'far': rng.random() < .3}]
        while len(ops) < length:
            op = rng.choices(
                ['create', 'createany', 'destroy', 'destroypath', 'direct', 'names',
                 'discover', 'mkdir', 'putfile', 'write', 'remove', 'look', 'size',
                 'total', 'move', 'note', 'noted', 'forget', 'known', 'reopen'],
                [16, 2, 8, 6, 4, 3, 5, 4, 6, 18, 4, 8, 3, 4, 1, 3, 3, 2, 2, 7])[0]
            n1 = rng.choice(names)
            if op in ('write', 'remove', 'look', 'size', 'note', 'destroy') and rng.random() < .15:
                n1 = 'far'
            e = {'op': op, 'n': n1}
            if op == 'reopen':
                ops.append({'op': 'close'})
                if rng.random() < .3:
                    ops.append(extra(rng, {'op': 'direct', 'n': n1}))
                if rng.random() < .2:
                    ops.append({'op': 'openwith', 'ns': rng.sample(names, rng.choice([1, 2]))})
                ops.append(extra(rng, {'op': 'open', 'd': rng.random() < .85, 'far': rng.random() < .3}))
                ops.append({'op': 'names'})
                for x in names + ['far']:
                    ops.append(extra(rng, {'op': 'look', 'n': x}))
                continue
            if op in ('createany', 'names', 'discover', 'total', 'known'):
                del e['n']
            if op == 'create':
                e['over'] = rng.random() < .4
            if op == 'destroypath':
                e['empty'], e['all'] = rng.random() < .6, rng.random() < .3
            if op == 'mkdir':
                e['init'] = rng.choice(['other', 'other', 'none'])
            if op == 'putfile':
                own = [n1 + '.d', n1 + 'x', n1 + '-old', 'x' + n1, n1 + '_1.index', '__init__.pyx']
                e['f'] = rng.choice([f for f in FILES + own if f != n1])
            if op in ('write', 'remove'):
                e['k'] = rng.choice(IDS)
            if op == 'write':
                e['v'] = rng.randrange(9)
            ops.append(extra(rng, e))
        jobs.append({'cfg': cfg(rng), 'ops': ops})
    return jobs


def corrupt(t, rng):
    evs = [e for e in t['ev'] if e['dirs']]
    if not evs:
        return False
    d = rng.choice(rng.choice(evs)['dirs'])
    d['db'] = not d['db']
    return True


def C26(rep, work):
    big = rep.thorough
    out, g, d = core.model_check(work, 'MCCluster', MC_CFG.format(
        names='NamesTwo', emit='FALSE'), workers=4, heap='4g')
    rep.count(g, d)
    out, g, d = core.model_check(work, 'MCCluster', MC_CFG.format(
        names='NamesTwo' if big else 'NamesOne', emit='TRUE'), workers=1, heap='4g')
    edges = core.edges(out)
    roots = {e['s'] for e in edges if e['i']}
    rng = rep.rng('walk')
    ws, left = gen.walks([(e['s'], json.dumps(e['o']), e['t']) for e in edges],
                         roots, rng, 40, 900 if big else None)
    rep.extra['model_transitions_to_cover'] = len(edges)
    rep.extra['model_transitions_left'] = left
    jobs = [{'cfg': cfg(rng), 'ops': [extra(rng, json.loads(o)) for o in ops]}
            for _, ops in ws]
    jobs += random_jobs(rep, 2500 if big else 200, 35)
    traces = core.run_driver(work, 'drv_cluster.py', jobs, timeout=1500 if big else 400)
    traces = [t for t in traces if t['ev']]
    rep.judge('TraceCluster', 'SPECIFICATION Spec\n', traces, work, corrupt=corrupt)
    rep.sample(traces[0])
    rep.sample(traces[-1])
    rep.extra['operations_executed'] = sum(len(t['ev']) for t in traces)
    rep.extra['outcomes'] = sorted({f"{e['op']}: {e['r']['tag']}" for t in traces
                                    for e in t['ev']})
