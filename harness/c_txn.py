"""Connections: operations, automatic commits, blocks, isolation."""
import json
import core, gen
from c_group import some_key
from c_container import some_group

MC_CFG = '''SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTRAINT Bound
CONSTANTS
  Kind = "{kind}"
  MCConns <- {conns}
  MCKeys <- {keys}
  MCVals <- {vals}
  MCMaxVersions = {versions}
  MCOff = {off}
  MCRace = {race}
  MCEmit = {emit}
INVARIANTS TypeOK
PROPERTIES HistoryGrows NoDirtyRead NoLostUpdate AllOrNothing Repeatable SameAgain
'''


def explore(rep, work, emit=True, **kw):
    a = dict(conns='TwoConns', keys='KeysTwo', vals='ValsOne', versions=3,
             off='FALSE', race='FALSE', kind='container')
    a.update(kw)
    out, g, d = core.model_check(
        work, 'MCTxn', MC_CFG.format(emit='TRUE' if emit else 'FALSE', **a),
        workers=1 if emit else 6, heap='6g', timeout=800)
    rep.count(g, d)
    return core.edges(out) if emit else []


START = {'how': 'make', 'p': 1, 'strict': False,
         'groups': [{'caps': [2, 2, 2], 'strict': False, 'items': []}]}


def flat(o):
    """The model's step as an operation of the driver."""
    e = dict(o['e']) if o['op'] != 'raced' else {'op': 'raced', 'e': o['e'],
                                                 'd': o['d'], 'o': o['o']}
    e['c'] = o['c']
    if e.get('how') == 'fault':
        e['fault'] = True
    return e


def schedules(rep, edges, conns, limit=None, length=40):
    root = next(e['s'] for e in edges if e['i'])
    ws, left = gen.walks([(e['s'], json.dumps(e['o']), e['t'])
                          for e in edges], [root], rep.rng('walk'), length, limit)
    rep.extra['model_transitions_to_cover'] = len(edges)
    rep.extra['model_transitions_left'] = left
    rng = rep.rng('walk-store')
    return [{'cfg': dict(START, conns=conns, store='mapping',
                         tms=rng.choice(['default', 'thread', 'own'])),
             'ops': [flat(json.loads(o)) for o in ops]} for _, ops in ws]


VALS = [('int', 9), ('str', 9), ('list', 4), ('dict', 4), ('none', 1)]


def val(rng, vals=VALS):
    t, m = rng.choice(vals)
    n = rng.randrange(m)
    return {'t': t, 'n': 0 if t == 'none' else n}


# some of these are equal although they differ, which ZODB cannot tell apart
# when it resolves conflicts
EQUALS = [('int', 2), ('bool', 2), ('float', 1), ('list', 4), ('dict', 4)]


def write(rng, k, vals=VALS):
    op = rng.choice(['create', 'create', 'update', 'update', 'delete'])
    if op == 'delete':
        return {'op': op, 'k': k()}
    e = {'op': op, 'k': k(), 'v': val(rng, vals)}
    if op == 'update' and rng.random() < .4:
        e['inplace'] = True
    return e


def read(rng, k):
    op = rng.choice(['read', 'read', 'item', 'many', 'figures', 'badindex'])
    if op == 'read':
        return {'op': op, 'k': k(), 'd': [val(rng)] if rng.random() < .4 else []}
    if op == 'item':
        return {'op': op, 'k': k()}
    if op == 'many':
        return {'op': op, 'ids': [k() for _ in range(rng.randint(1, 4))],
                'as': rng.choice(['list', 'tuple', 'iter'])}
    return {'op': op}


def some_cfg(rng, pool, conns, strict=.2):
    groups = [some_group(rng, pool, False, cap=5)
              for _ in range(rng.choice([1, 1, 2, 3]))]
    for g in groups:
        # values that compare equal although they differ are not used here
        g['items'] = [[k, val(rng)] for k, _ in g['items']]
    return {'how': 'make', 'groups': groups, 'p': rng.randint(1, len(groups)),
            'strict': conns == 1 and rng.random() < strict, 'conns': conns,
            'store': rng.choice(['mapping', 'file']),
            'tms': rng.choice(['default', 'thread', 'own'])}


def random_jobs(rep, salt, n, conns, length=30, w=None, look=.1):
    """w: weights of write, read, enter, exit, off, raced, reconnect,
       refresh, fault"""
    w = {'write': 6, 'read': 4, 'enter': 1.5, 'exit': 2, 'off': 0, 'raced': 1,
         'reconnect': .3, 'refresh': .4, 'fault': .15, **(w or {})}
    rng = rep.rng(salt)
    jobs = []
    for _ in range(n):
        pool = [list(b'a'), list(b'b')]
        nc = rng.choice(conns)
        cfg = some_cfg(rng, pool, nc)
        k = lambda: (rng.choice(pool[:5]) if rng.random() < .8
                     else some_key(rng, pool))
        vals = EQUALS if nc == 1 and rng.random() < .5 else VALS
        mode = ['auto'] * nc
        ops = []
        # now and then, a lot is done before anything is committed
        much = rng.random() < .08
        while len(ops) < length * (3 if much else 1):
            c = rng.randrange(nc)
            if w.get('past') and rng.random() < w['past'] / 10:
                ops.append({'c': c + 1, 'op': 'past', 'n': rng.randrange(1000),
                            'e': (read if rng.random() < .8 else write)(rng, k)})
                continue
            if w.get('legacy') and rng.random() < .06:
                x = rng.random()
                if x < .25 and mode[c] == 'auto':
                    ops.append({'c': c + 1, 'op': 'setup'})
                elif x < .6 and w['legacy'] == 'legacy' and set(mode) == {'auto'}:
                    ops.append({'c': c + 1, 'op': 'expand',
                                'n': rng.choice([0, -1, 1, 1, 2, 5])})
                elif x < .8:
                    ops.append({'c': c + 1, 'op': 'past', 'n': 0, 'db': 'item',
                                'e': {'op': 'item', 'k': k()}})
                else:
                    ops.append({'c': c + 1, 'op': 'past', 'n': 0,
                                'db': rng.choice(['with', 'nested', 'thread']),
                                'e': read(rng, k)})
                continue
            choice = {'write': w['write'], 'read': w['read']}
            if mode[c] == 'auto':
                choice.update(enter=w['enter'], off=w['off'],
                              reconnect=w['reconnect'])
                idle = [d for d in range(nc) if d != c and mode[d] == 'auto']
                if idle:
                    choice['raced'] = w['raced']
            else:
                choice['end'] = w['exit'] / (20 if much else 1)
            if mode[c] != 'block':
                choice['refresh'] = w['refresh']
            x = rng.choices(list(choice), list(choice.values()))[0]
            add = lambda **e: ops.append({'c': c + 1, **e})
            hurt = {'fault': True} if rng.random() < w['fault'] else {}
            if x == 'write':
                e = write(rng, k, vals)
                if mode[c] == 'auto':
                    e.update(hurt)
                add(**e)
            elif x == 'read':
                add(**read(rng, k))
            elif x == 'enter':
                mode[c] = 'block'
                add(op='enter')
            elif x == 'off':
                mode[c] = 'off'
                add(op='off')
            elif x in ('reconnect', 'refresh'):
                add(op=x)
            elif x == 'raced':
                one = k()
                same = (lambda: one) if rng.random() < .6 else k
                add(op='raced', e=write(rng, same), d=rng.choice(idle) + 1,
                    o=write(rng, same))
            elif mode[c] == 'block':
                mode[c] = 'auto'
                how = rng.choice(['ok', 'ok', 'raise'])
                add(op='exit', how=how, **(
                    hurt if how == 'ok' else {'x': rng.randrange(12)}))
            else:
                add(op=rng.choice(['commit', 'commit', 'abort']))
                if ops[-1]['op'] == 'commit':
                    ops[-1].update(hurt)
                if rng.random() < .4:
                    mode[c] = 'auto'
                    add(op='on')
            ops[-1]['look'] = rng.random() < look
        jobs.append({'cfg': cfg, 'ops': ops})
        if w.get('elsewhere', 0) > rng.random():
            cfg['store'] = 'file'
            jobs[-1]['elsewhere'] = pool
    return jobs


def run(rep, work, jobs, kind='container'):
    traces = core.run_driver(work, 'drv_txn.py', jobs)
    rep.judge('TraceTxn', f'SPECIFICATION Spec\nCONSTANT Kind = "{kind}"\n', traces, work,
              corrupt=corrupt)
    rep.sample(traces[0])
    rep.sample(traces[-1])
    rep.extra['operations_executed'] = sum(len(t['ev']) for t in traces)
    rep.extra['conflicts_seen'] = sum(
        e['r']['tag'] == 'ConflictError' for t in traces for e in t['ev'])
    rep.extra['reopened_files'] = sum(
        'disk' in e for t in traces for e in t['ev'])
    rep.assumptions.append('one connection per thread of control; interleavings '
                           'are scheduled, not preempted')


def corrupt(t, rng):
    """An object of the database goes missing."""
    evs = [e for e in t['ev'] if e['db']['grps'][0]['items']]
    if not evs:
        return False
    rng.choice(evs)['db']['grps'][0]['items'].pop()
    return True


def C10(rep, work):
    big = rep.thorough
    e = explore(rep, work, conns='TwoConns', race='TRUE')
    e = [x for x in e if x['o']['e']['op'] not in ('enter', 'exit')]
    jobs = schedules(rep, e, 2, limit=None if big else 150)
    run(rep, work, jobs + random_jobs(
        rep, 'auto', 3000 if big else 250, [1, 2], look=.25,
        w={'enter': 0, 'raced': .7, 'fault': .2}))


def C11(rep, work):
    big = rep.thorough
    e = explore(rep, work, conns='OneConn', vals='ValsTwo', versions=4 if big else 3)
    jobs = schedules(rep, e, 1, limit=None if big else 200)
    run(rep, work, jobs + random_jobs(
        rep, 'block', 3000 if big else 250, [1, 1, 2],
        w={'enter': 5, 'exit': 2, 'raced': 0, 'fault': .3, 'elsewhere': .1}))


def C12(rep, work):
    big = rep.thorough
    explore(rep, work, emit=False, conns='ThreeConns' if big else 'TwoConns',
            race='TRUE', versions=3 if big else 4)
    e = explore(rep, work, conns='TwoConns', race='TRUE', versions=3)
    jobs = schedules(rep, e, 2, limit=None if big else 250)
    run(rep, work, jobs + random_jobs(
        rep, 'many', 4000 if big else 300, [2, 2, 3], length=40, look=.03,
        w={'enter': 4, 'exit': 2, 'raced': 3, 'fault': .05, 'past': 1})
        + random_jobs(rep, 'reads', 600 if big else 80, [2, 3], look=0,
                      w={'write': 4, 'read': 10, 'enter': .3, 'fault': 0}))


def C13(rep, work):
    big = rep.thorough
    e = explore(rep, work, conns='OneConn', vals='ValsTwo', versions=4 if big else 3)
    jobs = schedules(rep, e, 1, limit=None if big else 120)
    run(rep, work, jobs + random_jobs(
        rep, 'crud', 4000 if big else 350, [1], look=.03,
        w={'read': 7, 'enter': .7, 'off': .2, 'fault': 0}))


def C14(rep, work):
    big = rep.thorough
    e = explore(rep, work, conns='TwoConns' if big else 'OneConn', off='TRUE',
                versions=3)
    jobs = schedules(rep, e, 2 if big else 1, limit=None if big else 200)
    run(rep, work, jobs + random_jobs(
        rep, 'off', 3000 if big else 250, [1, 2],
        w={'off': 5, 'enter': .7, 'exit': 1.2, 'raced': 0, 'fault': .1}))


def C17(rep, work):
    """The other two kinds of connections."""
    big = rep.thorough
    for kind in ('managed', 'legacy'):
        e = explore(rep, work, conns='TwoConns', versions=3, kind=kind,
                    race='TRUE' if big else 'FALSE')
        jobs = schedules(rep, e, 2, limit=None if big else 60)
        jobs += random_jobs(
            rep, kind, 2500 if big else 170, [1, 1, 2], look=.15,
            w={'off': 1, 'enter': 2, 'past': .5, 'raced': .7, 'fault': .15,
               'legacy': kind, 'elsewhere': .2})
        rng = rep.rng('layout')
        for j in jobs:
            j['cfg'].update(kind=kind, n=rng.choice([1, 2, 3, 7]), strict=False)
            j['cfg']['made'] = rng.choice(['whole', 'whole', 'again', 'partly',
                                           'afresh'])
            if kind == 'legacy':
                # one collection of mappings, no limits
                j['cfg']['groups'] = j['cfg']['groups'][:1]
        run(rep, work, jobs, kind)
