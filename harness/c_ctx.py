"""Properties whose behaviour depends on the context of the object."""
import json
import core, gen

MC_CFG = '''SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT {emit}
CONSTANTS MCProps = {props}
  MCDepth = {depth}
  MCObjs <- {objs}
PROPERTIES OtherObjects OldProperties Restored Reading
'''


def random_jobs(rep, n, length):
    rng = rep.rng('ctx')
    jobs = []
    for _ in range(n):
        objs = rng.randint(1, 3)
        kinds = [rng.choice(['aware', 'aware', 'child', 'plain'])
                 for _ in range(objs)]
        ctxs = ['', 'A', rng.choice(['B', 'pair', 'nothing']),
                rng.choice(['C', 'zero', 'empty']), '_JSONLD_OUTPUT_CONTEXT_']
        fn = lambda zero=.2: (0 if rng.random() < zero else
                              rng.randint(90, 92) if rng.random() < .1 else
                              rng.randint(1, 40))
        props, depth, ops = 0, [0] * objs, []
        while len(ops) < length:
            x = rng.random()
            if not props or (x < .06 and props < 5):
                ops.append({'op': 'new', 'g': fn(), 's': fn(), 'd': fn(.4),
                            'via': rng.choice(['decorator', 'class'])})
                props += 1
            elif x < .14 and props < 7:
                ops.append({'op': 'derive', 'p': rng.randint(1, props),
                            'kind': rng.choice(['get', 'set', 'del', 'copy']),
                            'h': fn(0)})
                props += 1
            elif x < .3:
                ops.append({'op': 'extend', 'p': rng.randint(1, props),
                            'kind': rng.choice(['get', 'set', 'del']),
                            'c': rng.choice(ctxs[1:]), 'h': fn(0)})
            else:
                o = rng.randint(1, objs)
                if x < .45 and kinds[o - 1] != 'plain' and depth[o - 1] < 5:
                    ops.append({'op': 'open', 'o': o, 'c': rng.choice(ctxs)})
                    depth[o - 1] += 1
                elif x < .57 and depth[o - 1]:
                    ops.append({'op': 'close', 'o': o,
                                'raise': rng.random() < .4})
                    depth[o - 1] -= 1
                else:
                    k = rng.choice(['get', 'get', 'set', 'del'])
                    e = {'op': k, 'o': o, 'p': rng.randint(1, props)}
                    if k == 'set':
                        e['v'] = rng.randint(1, 99)
                    ops.append(e)
        jobs.append({'cfg': {'objs': objs, 'kinds': kinds}, 'ops': ops})
    return jobs


def corrupt(t, rng):
    evs = [e for e in t['ev'] if e['r']['tag'] == 'val']
    if not evs:
        return False
    rng.choice(evs)['r']['h'] += 50
    return True


def C18(rep, work):
    big = rep.thorough
    out, g, d = core.model_check(
        work, 'MCCtx', MC_CFG.format(emit='Emit', props=2, depth=1,
                                     objs='Two' if big else 'One'),
        workers=1, heap='6g', timeout=800)
    rep.count(g, d)
    edges = core.edges(out)
    root = next(e['s'] for e in edges if e['i'])
    ws, left = gen.walks([(e['s'], json.dumps(e['o']), e['t']) for e in edges],
                         [root], rep.rng('walk'), 60, None if big else 200)
    rep.extra['model_transitions_to_cover'] = len(edges)
    rep.extra['model_transitions_left'] = left
    if not big:
        _, g, d = core.model_check(
            work, 'MCCtx', MC_CFG.format(emit='NoEmit', props=2, depth=2,
                                         objs='One'), timeout=800)
        rep.count(g, d)
    jobs = [{'cfg': {'objs': 2 if big else 1},
             'ops': [json.loads(o) for o in ops]} for _, ops in ws]
    jobs += random_jobs(rep, 4000 if big else 400, 50)
    traces = core.run_driver(work, 'drv_ctx.py', jobs, timeout=800)
    rep.judge('TraceCtx', 'SPECIFICATION Spec\n', traces, work, corrupt=corrupt)
    rep.sample(traces[0])
    rep.sample(traces[-1])
    rep.extra['operations_executed'] = sum(len(t['ev']) for t in traces)
