"""Database files: creating, opening, reopening, refusing, joining."""
import json
import core, gen
from c_group import some_key
from c_txn import val, write, read

MC_CFG = '''SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  MCHandles <- {handles}
  MCEmit = {emit}
  MCSess = {sess}
INVARIANTS TypeOK OneOwner SessionsLive
PROPERTIES ThreadsApart KeepsObjects RefusedIsHarmless OpeningChangesNothing OnlyRead
'''


def random_jobs(rep, n, length):
    rng = rep.rng('life')
    jobs = []
    for _ in range(n):
        paths, handles = rng.choice([1, 2, 2]), rng.choice([1, 2, 2, 3])
        reg = rng.random() < .4
        blocks = rng.random() < .5
        live = {}
        pool = [list(b'a'), list(b'b')]
        k = lambda: (rng.choice(pool[:4]) if rng.random() < .8
                     else some_key(rng, pool))
        ops = []
        sess = {1: [], 2: []}
        # what there may be in a file; only to avoid pointless steps
        there = set()
        while len(ops) < length:
            h = rng.randint(1, handles)
            p = rng.randint(1, paths)
            size = lambda: dict(cap=rng.choice([1, 2, 3, 7, 5001, 12000]),
                                strict=rng.random() < .5,
                                fresh=rng.random() < .25)
            x = rng.random()
            if p not in there and p not in live.values() and x < .15:
                root = rng.choice(['none', 'none', 'container'])
                ops.append({'op': 'plant', 'p': p, 'root': root,
                            'extra': rng.random() < .6})
                there.add(p)
            elif x < .22:
                ops.append({'op': 'make', 'p': p, **size()})
                there.add(p)
            elif h not in live:
                y = rng.random()
                busy = p in live.values()
                if y < .3:
                    ops.append({'op': 'new', 'h': h, 'p': p, **size()})
                elif y < .45:
                    ops.append({'op': 'look', 'h': h, 'p': p,
                                'fresh': rng.random() < .1,
                                'how': rng.choice(['new', 'open', 'open', 'make']),
                                'given': rng.choice(['path', 'storage'])})
                    if ops[-1]['how'] != 'make' and p in there:
                        live[h] = p
                    continue
                elif y < .53:
                    ops.append({'op': 'memory', 'h': h,
                                'via': rng.choice(['init', 'load'])})
                    live[h] = -1
                    continue
                elif y < .6 and reg and live and p in there:
                    ops.append({'op': 'taken', 'h': h, 'p': p,
                                'of': rng.choice(list(live))})
                    continue
                else:
                    ops.append({'op': 'open', 'h': h, 'p': p,
                                'via': rng.choice(['init', 'load']),
                                'given': rng.choice(['path', 'storage'])})
                there.add(p)
                if not busy:
                    # unless it turns out to be somebody else's
                    live[h] = p
            elif x < .4:
                # (a database is not closed inside a block)
                for w in (1, 2):
                    while sess[w]:
                        if reg or h in sess[w]:
                            ops.append({'op': 'leave', 'w': w})
                            sess[w].pop()
                        else:
                            break
                if reg:
                    ops.append({'op': 'closeall'})
                    live.clear()
                else:
                    ops.append({'op': 'close', 'h': h})
                    del live[h]
            elif x < .47:
                ops.append({'op': 'setstrict', 'h': h, 'b': rng.random() < .6})
            elif x < .52:
                ops.append({'op': 'strict', 'h': h})
            elif x < .64:
                steps = [{'h': rng.choice(list(live)) if reg else h,
                          'e': write(rng, k)} for _ in range(rng.randint(1, 4))]
                ops.append({'op': 'block', 'h': h, 'steps': steps,
                            'how': rng.choice(['ok', 'ok', 'raise'])})
            elif x < .8 and blocks:
                w = rng.choice([1, 2])
                y = rng.random()
                if y < .35 and len(sess[w]) < 4:
                    ops.append({'op': 'enter', 'w': w, 'h': h})
                    sess[w].append(h)
                elif y < .6 and sess[w]:
                    ops.append({'op': 'leave', 'w': w})
                    sess[w].pop()
                elif sess[w]:
                    e = write(rng, k) if rng.random() < .5 else read(rng, k)
                    ops.append({'op': 'say', 'w': w, 'd': rng.randint(1, len(sess[w])),
                                'e': e})
            else:
                e = write(rng, k) if rng.random() < .6 else read(rng, k)
                ops.append({'op': 'on', 'h': h, 'e': e,
                            'use': rng.choice(['open', 'with', 'other'])})
        jobs.append({'cfg': {'paths': paths, 'handles': handles,
                             'registry': reg}, 'ops': ops})
    return jobs


def corrupt(t, rng):
    """A file changes unnoticed, or a refusal goes unreported."""
    evs = [e for e in t['ev'] if any(d['there'] for d in e['disk'])]
    if not evs:
        return False
    d = rng.choice([d for d in rng.choice(evs)['disk'] if d['there']])
    if rng.random() < .5:
        d['extra'] = not d['extra']
    else:
        d['there'] = False
    return True


def sessions(rep, work):
    out, g, d = core.model_check(
        work, 'MCLife', MC_CFG.format(handles='OneHandle', emit='TRUE',
                                      sess=3 if rep.thorough else 2),
        workers=1, heap='6g', timeout=800)
    rep.count(g, d)
    return core.edges(out)


def C15(rep, work):
    big = rep.thorough
    out, g, d = core.model_check(
        work, 'MCLife', MC_CFG.format(handles='TwoHandles', emit='TRUE', sess=0),
        workers=1, heap='6g', timeout=800)
    rep.count(g, d)
    ws = []
    for n, edges in enumerate((core.edges(out), sessions(rep, work))):
        root = next(e['s'] for e in edges if e['i'])
        some, left = gen.walks(
            [(e['s'], json.dumps(e['o']), e['t']) for e in edges], [root],
            rep.rng('walk %d' % n), 40, None if big else (120, 60)[n])
        rep.extra.setdefault('model_transitions_to_cover', []).append(len(edges))
        rep.extra.setdefault('model_transitions_left', []).append(left)
        ws += some
    rng = rep.rng('walk-how')
    jobs = []
    for _, ops in ws:
        ops = [json.loads(o) for o in ops]
        for o in ops:
            if o['op'] in ('open', 'look'):
                o.update(via=rng.choice(['init', 'load']),
                         given=rng.choice(['path', 'storage']))
            if o['op'] == 'on':
                o['use'] = rng.choice(['open', 'with', 'other'])
        jobs.append({'cfg': {'paths': 2, 'handles': 2, 'registry': True},
                     'ops': ops})
    jobs += random_jobs(rep, 2500 if big else 260, 25)
    traces = core.run_driver(work, 'drv_life.py', jobs, timeout=800)
    rep.judge('TraceLife', 'SPECIFICATION Spec\n', traces, work, corrupt=corrupt)
    rep.sample(traces[0])
    rep.sample(traces[-1])
    rep.extra['operations_executed'] = sum(len(t['ev']) for t in traces)
    rep.extra['outcomes'] = sorted({e['r']['tag'] for t in traces
                                    for e in t['ev'] if 'r' in e})
