"""Maintenance of a container that is in use."""
import json
import core, gen
from c_group import some_key
from c_txn import VALS

RULES = ['Guard', 'Inside', 'Visible', 'Hold']


def cfg(jobs, maints, users, starts='StartFew', keys='KeysTwo', emit=False,
        off=None, times=1, props=True):
    return f'''SPECIFICATION Spec
VIEW View
INVARIANT NothingLost
{'PROPERTIES NoLostUpdate UsersDoTheirPart MaintainersDoTheirPart EndsWell AloneSucceeds' if props else ''}
{'ACTION_CONSTRAINT Emit' if emit else ''}
CONSTANTS MCEmit = {'TRUE' if emit else 'FALSE'}
MCKeys <- {keys}
MCVals <- ValsOne
MCUsers <- {users}
MCMaints <- {maints}
MCJobs <- {jobs}
MCStarts <- {starts}
MCStep = 1
MCMaxGroups = 3
MCTimes = {times}
''' + ''.join(f'Rule{r} = {"FALSE" if r == off else "TRUE"}\n' for r in RULES)


TRACE_CFG = 'SPECIFICATION Spec\nCONSTANTS\n' + ''.join(
    f'Rule{r} = TRUE\n' for r in RULES)


def val(rng):
    t, m = rng.choice([v for v in VALS if v[0] != 'none'])
    return {'t': t, 'n': rng.randrange(m)}


def job(rng):
    j = {'op': rng.choice(['resize', 'resize', 'condense']),
         'all': rng.random() < .5, 'transfer': rng.random() < .65,
         'tm': rng.random() < .75, 'fresh': rng.random() < .6}
    if j['op'] == 'resize':
        j['cap'], j['most'] = rng.choice(
            [(30, 10), (12, 3), (20, 7), (9, 1), (40, 40), (6, 3)])
    return j


def random_jobs(rep, n, length):
    rng = rep.rng('maint')
    jobs = []
    for _ in range(n):
        pool = [list(b'a'), list(b'b'), list(b'c')]
        for _ in range(rng.choice([0, 0, 2, 5])):
            some_key(rng, pool)
        ids = []
        for k in pool:
            if k not in ids:
                ids.append(k)
        pool = ids
        ng = rng.choice([1, 1, 2, 2, 3])
        groups = [{'caps': [rng.choice([2, 10])] * rng.choice([1, 2, 3, 5]),
                   'strict': False,
                   'items': [[k, val(rng)] for k in pool if rng.random() < .5]}
                  for _ in range(ng)]
        users, maints = rng.choice([(1, 1), (2, 1), (2, 1), (3, 1), (1, 2), (2, 2), (2, 2)])
        c = {'how': 'make', 'groups': groups, 'p': rng.randint(1, ng),
             'strict': False, 'users': users, 'maints': maints, 'pool': pool,
             'plain': rng.random() < .3,
             'store': 'file' if rng.random() < .15 else 'memory'}
        ops = []
        if rng.random() < .7:
            # something is going on when it starts
            ops.append({'op': 'begin', 'u': rng.randint(1, users),
                        'how': rng.choice(['off', 'block'])})
        ops.append({'op': 'start', 'm': 1, 'job': job(rng)})
        if maints > 1 and rng.random() < .5:
            # both from the same state
            ops.append({'op': 'start', 'm': 2, 'job': {**job(rng), 'fresh': True}})
            if rng.random() < .4:
                # one gets far while the other is in the middle of a step
                a, b = rng.choice([(1, 2), (2, 1)])
                ops.append({'op': 'step', 'm': a, 'n': rng.randint(1, 6)})
                ops.append({'op': 'step', 'm': b, 'n': rng.choice([4, 9, 15, 40])})
        pace = rng.choice([.25, .5, .75])
        for _ in range(length):
            x = rng.random()
            u = rng.randint(1, users)
            if x < pace:
                m = rng.randint(1, maints)
                y = rng.random()
                if y < .15:
                    ops.append({'op': 'start', 'm': m, 'job': job(rng)})
                else:
                    ops.append({'op': 'step', 'm': m,
                                'n': 1 if rng.random() < .85 else
                                rng.choice([2, 3, 4, 5, 6, 15, 40])})
                continue
            y = rng.random()
            k = rng.choice(pool)
            if y < .2:
                ops.append({'op': 'begin', 'u': u, 'how': rng.choice(['off', 'block'])})
            elif y < .4:
                ops.append({'op': 'commit' if rng.random() < .8 else 'abort', 'u': u})
            elif y < .62:
                ops.append({'op': 'update', 'u': u, 'k': k, 'v': val(rng)})
            elif y < .7:
                ops.append({'op': 'create', 'u': u, 'k': k, 'v': val(rng)})
            elif y < .88:
                ops.append({'op': 'delete', 'u': u, 'k': k})
            elif y < .95:
                ops.append({'op': 'look', 'u': u})
            else:
                ops.append({'op': 'read', 'u': u, 'k': k})
        jobs.append({'cfg': c, 'ops': ops, 'rest': rng.choice([1, 2, 7])})
    return jobs


def large_jobs(rep, n):
    """Collections whose trees have more than one bucket."""
    rng = rep.rng('large maint')
    jobs = []
    for _ in range(n):
        pool = [list(b'k%03d' % i) for i in range(rng.choice([70, 130]))]
        ng = rng.choice([1, 2])
        groups = [{'caps': [200], 'strict': False,
                   'items': [[k, val(rng)] for k in pool if rng.random() < .8]}
                  for _ in range(ng)]
        c = {'how': 'make', 'groups': groups, 'p': rng.randint(1, ng),
             'strict': False, 'users': 2, 'maints': 1, 'pool': pool,
             'plain': False, 'store': 'memory'}
        ops = [{'op': 'begin', 'u': 1, 'how': 'off'}]
        j = job(rng)
        if j['op'] == 'resize':
            j['cap'], j['most'] = 300, 300
        ops.append({'op': 'start', 'm': 1, 'job': j})
        for _ in range(6):
            k = rng.choice(pool)
            x = rng.random()
            u = rng.randint(1, 2)
            ops.append({'op': 'delete', 'u': u, 'k': k} if x < .5 else
                       {'op': 'update', 'u': u, 'k': k, 'v': val(rng)})
            ops.append({'op': 'step', 'm': 1, 'n': rng.choice([1, 7, 30])})
            if rng.random() < .4:
                ops.append({'op': 'commit', 'u': 1})
                ops.append({'op': 'begin', 'u': 1, 'how': 'off'})
        jobs.append({'cfg': c, 'ops': ops, 'rest': 60})
    return jobs


def from_model(c, ops, rng):
    """A walk of the model as a schedule."""
    res, pending = [], {}
    for o in ops:
        o = json.loads(o)
        op = o['op']
        if op == 'start':
            # its connection sees what is stored now, but does nothing yet
            j = o['job']
            res.append({'op': 'sync', 'm': o['m']})
            pending[o['m']] = {'op': j['op'], 'all': j['all'], 'tm': j['tm'],
                               'transfer': j['transfer'], 'fresh': False,
                               'cap': 10, 'most': 2}
        elif op in ('mbegin', 'mcommit'):
            j = pending.pop(o['m'], None)
            res.append({'op': 'start', 'm': o['m'], 'job': j} if j else
                       {'op': 'step', 'm': o['m']})
        elif op == 'begin':
            res.append({'op': 'begin', 'u': o['u'], 'how': rng.choice(['off', 'block'])})
        elif op == 'commit':
            res.append({'op': 'commit', 'u': o['u']})
        elif op == 'update':
            res.append({'op': 'update', 'u': o['u'], 'k': o['k'], 'v': o['v']})
        else:
            res.append({'op': 'delete', 'u': o['u'], 'k': o['k']})
    res += [{'op': 'start', 'm': m, 'job': j} for m, j in pending.items()]
    return {'cfg': dict(c, users=1, maints=2, pool=[[97], [98]]), 'ops': res}


def corrupt(t, rng):
    evs = [e for e in t['ev'] if e['op'] in ('step', 'start', 'commit')]
    if not evs:
        return False
    e = rng.choice(evs)
    g = rng.choice(e['db']['grps'])
    g['items'] = [x for x in g['items'] if x[0] != [113]] + [
        [[113], {'t': 'int', 'n': 1}]]
    return True


def C27(rep, work):
    big = rep.thorough
    runs = [('JobsAll', 'First', 'First', {}), ('JobsAll', 'Both', 'Nobody', {})]
    if big:
        runs += [('JobsSteps', 'Both', 'First', {'keys': 'KeysOne', 'starts': 'StartPlain'}),
                 ('JobsAll', 'First', 'First', {'times': 2, 'keys': 'KeysOne'})]
    for jobs, maints, users, kw in runs:
        out, g, d = core.model_check(work, 'MCMaint', cfg(jobs, maints, users, **kw),
                                     workers=6, heap='10g', timeout=1500 if big else 400)
        rep.count(g, d)
    # every rule of the protocol is needed
    refuted = []
    for off, jobs, maints, users in [
            ('Guard', 'JobsSteps', 'First', 'First'),
            ('Inside', 'JobsSteps', 'Both', 'Nobody'),
            ('Visible', 'JobsSteps', 'Both', 'Nobody'),
            ('Hold', 'JobsSteps', 'First', 'First')]:
        rc, out, g, d = core.tlc(work, 'MCMaint', cfg(jobs, maints, users, off=off,
                                                      props=False),
                                 workers=4, heap='4g', timeout=300)
        if 'Invariant NothingLost is violated' not in out:
            raise core.CheckError(f'the model holds without rule {off}:\n' + out[-2000:])
        refuted.append(off)
    rep.extra['protocol_rules_shown_necessary'] = refuted
    ws = []
    rng = rep.rng('walk')
    for jobs, maints, users, kw in [
            ('JobsAll', 'First', 'First', {'keys': 'KeysOne'}),
            ('JobsSteps', 'Both', 'Nobody', {'starts': 'StartFew'})]:
        out, g, d = core.model_check(work, 'MCMaint',
                                     cfg(jobs, maints, users, emit=True, **kw),
                                     workers=1, heap='6g', timeout=600)
        edges = core.edges(out)
        roots = {e['s']: e['c'] for e in edges if e['i']}
        some, left = gen.walks([(e['s'], json.dumps(e['o']), e['t']) for e in edges],
                               roots, rng, 40, None if big else 150)
        rep.extra.setdefault('model_transitions_to_cover', []).append(len(edges))
        rep.extra.setdefault('model_transitions_left', []).append(left)
        ws += [from_model(roots[r], ops, rng) for r, ops in some]
    jobs = ws
    jobs += random_jobs(rep, 3000 if big else 260, 30)
    jobs += large_jobs(rep, 80 if big else 10)
    traces = core.run_driver(work, 'drv_maint.py', jobs, timeout=1500 if big else 400)
    rep.judge('TraceMaint', TRACE_CFG, traces, work, corrupt=corrupt)
    rep.sample(traces[0])
    rep.sample(traces[-20])
    rep.extra['operations_executed'] = sum(len(t['ev']) for t in traces)
    rep.extra['outcomes'] = sorted({f"{e['op']}: {e['r']['tag']}" for t in traces
                                    for e in t['ev']})
