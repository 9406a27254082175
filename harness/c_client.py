"""Clients of a server over the network."""
import json
import core, gen, c_txn
from c_group import some_key
from c_container import some_group
from c_txn import val, write, read

MC_CFG = '''SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  Kind = "container"
  MCClients <- {clients}
  MCStorages <- {storages}
  MCVersions = {versions}
  MCEmit = {emit}
  NewDb <- SmallDb
INVARIANTS ClientTypeOK
PROPERTIES HistoryGrows Harmless ReadersWriteNothing Acknowledged Forward AllOrNothing
'''

OLD = {'root': 'container', 'extra': True, 'cont': {
    'how': 'make', 'p': 1, 'strict': True,
    'groups': [{'caps': [2], 'strict': True,
                'items': [[[97], {'t': 'int', 'n': 0}]]}]}}
BLANK = {'root': 'blank', 'extra': False}
OTHER = {'root': 'other', 'extra': True}


def explore(rep, work, **kw):
    out, g, d = core.model_check(
        work, 'MCClient', MC_CFG.format(emit='TRUE', **kw), workers=1,
        heap='6g', timeout=800)
    rep.count(g, d)
    return core.edges(out)


def dress(rng, o, joined):
    """Details that must not matter."""
    if o['op'] == 'connect':
        o['addr'] = rng.choice(['one', 'list'])
        o['cache'] = rng.random() < .5
        o['more'] = {k: rng.choice(v) for k, v in {
            'name': ['', 'it', '1', '2'], 'client_label': ['me'],
            'storage_cache_size': [20 << 20, 1 << 20], 'cache_size': [400, 1],
            'pool_size': [7, 1]}.items() if rng.random() < .4}
    if o['op'] == 'on':
        o['use'] = rng.choice(['open', 'with'])
    return o


def random_jobs(rep, n, length):
    rng = rep.rng('client')
    jobs = []
    for _ in range(n):
        clients = rng.choice([1, 2, 2, 3])
        joined = rng.random() < .25
        pool = [list(b'a'), list(b'b')]
        storages = []
        for _ in range(rng.choice([1, 1, 2])):
            root = rng.choice(['blank', 'other', 'container', 'container'])
            storages.append({'root': root, 'extra': root == 'other' or
                             root == 'container' and rng.random() < .5})
            if root == 'container':
                groups = [some_group(rng, pool, False, cap=5)
                          for _ in range(rng.choice([1, 1, 2]))]
                for g in groups:
                    g['items'] = [[k, val(rng)] for k, _ in g['items']]
                storages[-1]['cont'] = {
                    'how': 'make', 'groups': groups,
                    'p': rng.randint(1, len(groups)),
                    'strict': rng.random() < .3}
        k = lambda: (rng.choice(pool[:4]) if rng.random() < .8
                     else some_key(rng, pool))
        ops, live, up = [], set(), True
        breaks = rng.random() < .6
        readers = rng.choice([.1, .1, .6])
        while len(ops) < length:
            c = rng.randint(1, clients)
            x = rng.random()
            if not up and x < .3:
                up = True
                ops.append({'op': 'start'})
            elif up and breaks and x < .05:
                up = False
                ops.append({'op': 'stop'})
            elif x < .07:
                ops.append({'op': 'make'})
            elif c not in live:
                s = rng.randint(1, len(storages))
                ops.append({'op': 'connect', 'c': c, 's': s,
                            'ro': rng.random() < readers,
                            'strict': rng.random() < .5,
                            'missing': rng.random() < .75,
                            'sync': rng.random() < .7})
                if up:
                    live.add(c)
            elif x < .15:
                if joined:
                    ops.append({'op': 'all'})
                    live.clear()
                else:
                    ops.append({'op': 'disconnect', 'c': c})
                    live.discard(c)
            elif x < .3:
                how = rng.choice(['ok', 'ok', 'raise'] +
                                 (['down', 'bounce'] if breaks and up else []))
                ops.append({'op': 'block', 'c': c, 'how': how, 'es': [
                    write(rng, k) for _ in range(rng.randint(1, 4))]})
                if how == 'down':
                    up = False
            else:
                e = write(rng, k) if rng.random() < .5 else read(rng, k)
                ops.append({'op': 'on', 'c': c, 'e': e})
            dress(rng, ops[-1], joined)
        jobs.append({'cfg': {'clients': clients, 'joined': joined,
                             'storages': storages}, 'ops': ops})
    return jobs


def corrupt(t, rng):
    """What was stored goes missing, or a client is left connected."""
    evs = [e for e in t['ev']
           if any(d['root'] == 'container' for d in e['disk'])]
    if not evs:
        return False
    e = rng.choice(evs)
    if rng.random() < .5:
        e['threads'] += 1
    else:
        d = rng.choice([d for d in e['disk'] if d['root'] == 'container'])
        d['root'] = 'none'
    return True


def C28(rep, work):
    big = rep.thorough
    jobs = []
    rng = rep.rng('how')
    for n, (clients, storages) in enumerate((('Two', 'One'), ('One', 'Two'))):
        edges = explore(rep, work, clients=clients, storages=storages,
                        versions=3 if big else 2)
        root = next(e['s'] for e in edges if e['i'])
        ws, left = gen.walks(
            [(e['s'], json.dumps(e['o']), e['t']) for e in edges], [root],
            rep.rng('walk %d' % n), 40, None if big else (60, 40)[n])
        rep.extra.setdefault('model_transitions_to_cover', []).append(len(edges))
        rep.extra.setdefault('model_transitions_left', []).append(left)
        for m, (_, ops) in enumerate(ws):
            first = OTHER if m % 3 == 1 else BLANK
            jobs.append({'cfg': {'clients': 2 if n == 0 else 1, 'joined': False,
                                 'storages': [first] if n == 0 else [first, OLD]},
                         'ops': [dress(rng, json.loads(o), False) for o in ops]})
    jobs += random_jobs(rep, 1200 if big else 110, 25)
    traces = core.run_driver(work, 'drv_client.py', jobs, timeout=800)
    rep.judge('TraceClient', 'SPECIFICATION Spec\nCONSTANT Kind = "container"\n',
              traces, work, corrupt=corrupt)
    rep.sample(traces[0])
    rep.sample(traces[-1])
    # transactions of several clients, as those of several connections
    jobs = c_txn.random_jobs(rep, 'served', 400 if big else 40, [2, 2, 3],
                             look=.1, w={'enter': 3, 'exit': 2, 'raced': 2,
                                         'fault': .1, 'off': .3, 'past': .5})
    for j in jobs:
        j['cfg']['store'] = 'served'
    c_txn.run(rep, work, jobs)
    rep.extra['steps_of_clients'] = sum(len(t['ev']) for t in traces)
    rep.extra['outcomes'] = sorted({e['r']['tag'] for t in traces
                                    for e in t['ev'] if 'r' in e})
