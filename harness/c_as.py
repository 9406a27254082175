"""ActivityStreams objects and documents."""
import glob, json, os, re
import core, gen

MC_CFG = '''SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT {emit}
CONSTANTS MCAll = {all}
INVARIANTS Valid1 RoundTrip
PROPERTIES Stays
'''
NS = 'https://www.w3.org/ns/activitystreams'
S = lambda s: {'k': 'str', 's': s}
N = lambda n: {'k': 'num', 'n': n}
L = lambda *l: {'k': 'list', 'l': list(l)}
M = lambda *m: {'k': 'map', 'm': [list(x) for x in m]}
HREF = ['https://a.example/x', 'http://b.example/y?z=1#f',
        'https://c.example:8080/~me/', 'https://a.example/2']
REFS = HREF + ['acct:who@a.example', 'who@b.example']
WORDS = ['plain', 'a b', 'é "q" \\ \n', 'ftp://a.example', 'http://', '@',
         'www.example.org', 'https://bad host/', 'a@b@c', '', 'Note',
         'https://', 'http:/x.example', 'https://a.example^/x']


def info(out):
    for line in out.splitlines():
        if line.startswith('<<"INFO", '):
            return json.loads(json.loads(line[len('<<"INFO", '):-2]))
    raise core.CheckError('the model did not tell its vocabulary')


class Gen:
    """Random values, objects and documents of the vocabulary."""

    def __init__(self, rng, voc):
        self.rng, self.voc = rng, voc
        self.own = False    # does the context define names of its own?
        self.types = sorted(voc['props'])

    def moment(self, doc):
        r = self.rng
        off = r.choice([0, 0, 0, 60, -330, 345, -1439, 840])
        v = {'k': 'dt', 'y': r.choice([1970, 1999, 2000, 2024, 9000]),
             'mo': r.randint(1, 12), 'd': r.choice([1, 28, 15]),
             'h': r.randint(0, 23), 'mi': r.randint(0, 59),
             'sec': r.choice([0, 0, 1, 59]),
             'us': r.choice([0, 0, 1, 250000, 999999]), 'off': off}
        if r.random() < .1:
            v.update(y=2024, mo=2, d=29)
        if off == 0 and r.random() < .4:
            v['x'] = 'naive'
        if doc or r.random() < .4:
            v.pop('x', 0)
            t = f"{v['y']:04}-{v['mo']:02}-{v['d']:02}T{v['h']:02}:{v['mi']:02}"
            if v['sec'] or v['us'] or r.random() < .7:
                t += f":{v['sec']:02}"
            if v['us'] or r.random() < .1:
                f = f".{v['us']:06}"
                t += f.rstrip('0') if v['us'] and r.random() < .5 else f
            if off == 0 and r.random() < .8:
                t += 'Z'
            else:
                t += r.choice(['', '', 'Z']) + ('-' if off < 0 else '+') + \
                    f'{abs(off) // 60:02}:{abs(off) % 60:02}'
            v['text'] = t
        return v

    def period(self):
        r = self.rng
        return {'k': 'dur', 'y': r.choice([0, 0, 1, 20]),
                'mo': r.choice([0, 0, 1, 11, 12]),
                'd': r.choice([0, 1, 29, 30, 31, 400]), 'h': r.choice([0, 5, 23, 24]),
                'mi': r.choice([0, 1, 59, 60]), 'sec': r.choice([1, 2, 59, 86400])}

    def node(self, kinds, depth, doc, listed=False):
        """An object of one of some types, by a program or in a document."""
        r = self.rng
        ts = [t for t in self.types if set(self.voc['anc'][t]) & set(kinds)]
        if 'Object' in kinds and r.random() < .6:
            ts = ['Note', 'Person', 'Image', 'Object', 'Collection',
                  'OrderedCollection', 'Question', 'Create', 'Tombstone']
        t = r.choice(ts)
        if not doc and r.random() < .15 and not listed and t not in (
                'Link', 'Mention', 'Object'):
            # one of the classes the engine's are made from
            return {'k': 'new', 't': t, 'x': 'raw', 'm': [
                [n, S(r.choice(WORDS))] for n in ('name', 'content')
                if r.random() < .7]}
        m = self.fields(t, depth + 1, doc, True)
        if doc:
            return self.typed(t, m)
        if t == 'Object':
            # (written without a type, it could not be told from a map)
            m.append(['type', S(t)])
        return {'k': 'new', 't': t, 'm': m}

    def typed(self, t, m):
        r = self.rng
        s = r.choice([t] * 6 + ['as:' + t, NS + '#' + t] +
                     ['av:' + t] * 4 * self.own)
        s = L(S(s)) if r.random() < .1 else S(s)
        key = r.choice(['type'] * 5 + ['@type'] + ['kind'] * 5 * self.own) \
            if t not in ('Object', 'Link') else 'type'
        m = [[key, s]] + [x for x in m if x[0] != 'type']
        r.shuffle(m)
        return M(*m)

    def fields(self, t, depth, doc, good):
        r = self.rng
        names = sorted(set(self.voc['props'][t]) - {'type'})
        n = r.choice([0, 1, 2, 3, 6] if depth < 3 else [0, 0, 1, 2])
        some = set(r.sample(names, min(n, len(names))))
        if t in ('Link', 'Mention'):
            some.add('href')
        if {'items', 'orderedItems'} <= some:
            some.discard(r.choice(['items', 'orderedItems']))
        if 'IntransitiveActivity' in self.voc['anc'][t]:
            some.discard('object')
        m = [[x, self.value(x, depth, doc, good)] for x in sorted(some)]
        for x in m:
            if x[0] == 'totalItems' and x[1].get('n') == 0:
                x[1]['n'] = 9
        # (whether an empty value for a count is one is not specified)
        return [x for x in m if x[0] not in ('totalItems', 'startIndex')
                or x[1] not in (S(''), L(), M())]

    def value(self, n, depth, doc, good=False):
        """A value for a property; any kind unless it has to be good."""
        r = self.rng
        rule = self.voc['rules'][n]
        if not good and r.random() < .35:
            return self.any(n, depth, doc)
        if n in ('href', 'id'):
            return S(r.choice(HREF))
        if not rule['one'] and r.random() < .3 and n != 'type':
            l = [self.single(n, rule, depth, doc, good, True)
                 for _ in range(r.choice([0, 1, 2, 3]))]
            if not good and r.random() < .2 and l:
                l[r.randrange(len(l))] = self.any(n, 9, doc, True)
            if r.random() < .1:
                l.append({'k': 'none'})
            # (lists in lists are not specified)
            l = [x for x in l if x['k'] != 'list']
            v = {'k': 'list', 'l': l}
            if not doc and rule['refs'] and r.random() < .3:
                v['x'] = 'tuple'
            return v
        return self.single(n, rule, depth, doc, good)

    def single(self, n, rule, depth, doc, good, listed=False):
        r = self.rng
        ways = list(rule['kinds'])
        if rule['nodes'] and depth < 4:
            ways += ['node', 'node']
        if rule['refs'] and 'Link' in rule['nodes']:
            ways += ['ref', 'ref']
        if not ways:
            return {'k': 'none'}
        w = r.choice(ways)
        if w == 'node':
            return self.node(rule['nodes'], depth, doc, listed)
        if w == 'ref':
            if r.random() < .2:
                return M(('href', S(r.choice(HREF))), ('rel', S('me')))
            return S(r.choice(REFS))
        if w == 'str':
            if n == 'duration':
                return S(r.choice(['PT5S', 'P1Y2M3DT4H5M6S', 'P400D', 'soon']))
            if not doc and n == 'closed':
                return self.moment(True)
            # text a program gives to "relationship" may be anything
            return S(r.choice(WORDS))
        if w == 'map':
            return M(('en', S(r.choice(WORDS))), ('de', L(S('x'), N(2))))
        if w == 'bool':
            return {'k': 'bool', 'b': r.random() < .5}
        if w == 'num':
            return N(r.choice([0, 1, 7, 70000]) if n != 'totalItems' else 4)
        if w == 'float':
            return {'k': 'float', 'f': r.choice(['0.5', '12.25', '0.0'])
                    if n == 'radius' or r.random() < .5 else '-1.5'}
        if w == 'dt':
            return self.moment(doc)
        return S('PT1S') if doc else self.period()

    def any(self, n, depth, doc, listed=False):
        r = self.rng
        rule = self.voc['rules'][n]
        if doc and n in ('id', 'href'):
            # (contexts do not allow anything else)
            return S(r.choice(HREF + ['plain']))
        x = r.random()
        if x < .25 and depth < 4:
            return self.node(['Object', 'Link'], depth + 1, doc, listed)
        if x < .35:
            v = self.moment(doc)
            if 'str' in rule['kinds']:
                # (text that looks like a moment is not specified)
                if doc:
                    return S('plain')
                v.pop('text', 0)
            return v
        if x < .45 and not rule['one'] and depth < 5:
            return L(*[y for y in (self.any(n, 6, doc, True) for _ in range(2))
                       if y['k'] != 'list'])
        v = r.choice([
            {'k': 'none'}, S(r.choice(WORDS)), S(r.choice(REFS)),
            N(r.choice([0, 5, -5])), {'k': 'float', 'f': '-0.5'},
            {'k': 'bool', 'b': True}, M(('en', S('x'))),
            M(('href', S(r.choice(HREF + ['nowhere', '']))), ('name', S('l'))),
            M(), L()])
        if v['k'] == 'bool' and 'num' in rule['kinds']:
            return N(3)
        return v

    def document(self, depth=0):
        r = self.rng
        self.own = r.random() < .15
        t = r.choice(self.types)
        good = r.random() < .75
        d = self.typed(t, self.fields(t, depth, True, good))
        if r.random() < .04:
            d['m'] = [x for x in d['m'] if x[0] not in TYPED]
        elif r.random() < .04:
            for x in d['m']:
                if x[0] in TYPED:
                    x[1] = S(r.choice(['Unheard', 'as:note', 'note', '']))
        for n in ('unknown', 'inbox'):
            if r.random() < .1:
                d['m'].append([n, r.choice([S('v'), N(1)])])
        return d


OWN = L(S(NS), M(('kind', S('@type')), ('av', S(NS + '#'))))
TYPED = ('type', '@type', 'kind')


def context(r, g, d):
    """Adds a context to a document; returns what the object will say."""
    x = r.random()
    if g.own:
        c = OWN
    elif x < .5:
        c = S(NS)
    elif x < .65:
        c = L(S(NS), M(('ext', S('https://ext.example/ns#'))))
    elif x < .75:
        c = L(S(NS))
    else:
        return S(NS)
    d['m'].insert(0, ['@context', c])
    return c


def reading(r, g):
    d = g.document()
    c = context(r, g, d)
    how = r.choice(['dict', 'dict', 'text', 'item', 'list', 'tuple'])
    return {'op': 'read', 'd': d, 'ctx': c, 'as': how}


def walk(r, g, t, pairs):
    """Names to go along, starting where something is."""
    have = [n for n, v in pairs if n in g.voc['props'][t]]
    ns = [r.choice(have or g.voc['props'][t])]
    for _ in range(r.choice([1, 1, 2])):
        ns.append(r.choice(['name', 'attributedTo', 'url', 'actor', 'object',
                            'id', 'preview', 'summary', 'type']))
    return ns


def random_jobs(rep, voc, n, length, mix, salt):
    """mix: the weights of reading, making, setting, writing, following."""
    rng = rep.rng('as' + salt)
    jobs = []
    for _ in range(n):
        g = Gen(rng, voc)
        # objects may be refused: operations on these are left out
        ops, objs = [], []
        while len(ops) < length:
            op = rng.choices(['read', 'new', 'set', 'write', 'again', 'get',
                              'walk', 'publish', 'members'], mix)[0]
            if op in ('read', 'new'):
                if len(objs) >= 4:
                    objs.pop(0)
                if op == 'read':
                    e = reading(rng, g)
                    t = next((x[1] for x in e['d']['m']
                              if x[0] in TYPED), S(''))
                    t = t['l'][0]['s'] if t['k'] == 'list' else t['s']
                    t = t.split(':')[-1].split('#')[-1]
                    pairs = e['d']['m']
                else:
                    t = rng.choice(g.types)
                    pairs = g.fields(t, 0, False, rng.random() < .8)
                    if t in ('Object', 'Link') and rng.random() < .5:
                        pairs.append(['type', S(t)])
                    e = {'op': 'new', 't': t, 'm': pairs}
                if t in g.types:
                    it = dict(map(tuple, pairs)).get('items', {'k': 'list'})
                    objs.append([len(ops), t, pairs, it['k'] == 'list'])
                e['slot'] = len(ops)
                ops.append(e)
                continue
            if op == 'publish':
                d = g.document()
                x = rng.random()
                if x < .8 or g.own:
                    context(rng, g, d)
                elif x < .9:
                    d = {'k': 'down'}
                else:
                    d = {'k': 'junk'}
                ops.append({'op': 'publish', 'url': rng.choice(HREF), 'd': d,
                            'text': '<html></html>'})
                continue
            if not objs:
                continue
            o = rng.choice(objs)
            slot, t, pairs, listed = o
            e = {'op': op, 'on': slot}
            have = [x for x, _ in pairs if x in voc['props'][t]]
            if op == 'set':
                names = [x for x in voc['props'][t] if x != 'type' and not (
                    x == 'object' and 'IntransitiveActivity' in voc['anc'][t])]
                e['n'] = rng.choice(names if not have or rng.random() < .6 else
                                    [x for x in have if x in names] or names)
                e['v'] = g.value(e['n'], 0, False)
                if e['n'] == 'items':
                    o[3] = False
                pairs = o[2] = pairs + [[e['n'], e['v']]]
            elif op in ('write', 'again'):
                e['as'] = rng.choice(['data', 'json', 'str', 'text'])
                if op == 'write' and e['as'] == 'text':
                    e['as'] = 'json'
            elif op == 'get':
                links = [x for x in have if voc['rules'][x]['refs']]
                e['n'] = rng.choice(links or have or voc['props'][t]) \
                    if rng.random() < .8 else rng.choice(voc['props'][t])
            elif op == 'walk':
                e['ns'] = walk(rng, g, t, pairs)
            elif op == 'members':
                if not listed or t not in ('Collection', 'CollectionPage'):
                    continue
            ops.append(e)
        jobs.append({'cfg': {}, 'ops': ops})
    return jobs


def model(rep, work, all_):
    out, g, d = core.model_check(
        work, 'MCAs', MC_CFG.format(emit='Emit', all=str(all_).upper()),
        workers=1, heap='10g', timeout=1500)
    rep.count(g, d)
    return info(out), core.edges(out)


def model_jobs(rep, edges, limit, length):
    root = next(e['s'] for e in edges if e['i'])
    ws, left = gen.walks([(e['s'], json.dumps(e['o']), e['t']) for e in edges],
                         [root], rep.rng('walk'), length, limit)
    rep.extra['model_transitions_to_cover'] = len(edges)
    rep.extra['model_transitions_left'] = left
    jobs = []
    for n, (_, ops) in enumerate(ws):
        ops = [json.loads(o) for o in ops]
        for j, o in enumerate(ops):
            if o['op'] in ('read', 'write', 'again'):
                o['as'] = ['text', 'dict', 'data', 'json', 'str'][(n + j) % 5]
        jobs.append({'cfg': {}, 'ops': ops})
    return jobs


def judge(rep, work, voc, jobs, batch=120):
    for j in jobs:
        j['names'] = sorted(voc['rules'])
    traces = core.run_driver(work, 'drv_as.py', jobs, timeout=800)
    rep.judge('TraceAs', 'SPECIFICATION Spec\n', traces, work,
              corrupt=corrupt, batch=batch, timeout=1500)
    rep.sample(traces[0])
    rep.sample(traces[-1])
    rep.extra['operations_executed'] = sum(len(t['ev']) for t in traces)
    rep.extra['outcomes'] = sorted({e['op'] + ' ' + e['r']['tag']
                                    for t in traces for e in t['ev']})


def corrupt(t, rng):
    evs = [e for e in t['ev'] if e['op'] != 'publish']
    if not evs:
        return False
    e = rng.choice(evs)
    e['r']['tag'] = 'obj' if e['r']['tag'] == 'ok' else 'ok'
    return True


def tagged(v):
    """A document of the corpus as the specification sees it, or None if it
    uses what is not specified."""
    if v is None:
        return {'k': 'none'}
    if isinstance(v, bool):
        return {'k': 'bool', 'b': v}
    if isinstance(v, int) and abs(v) < 2**31:
        return N(v)
    if isinstance(v, float):
        return {'k': 'float', 'f': repr(v)}
    if isinstance(v, str):
        m = MOMENT.match(v)
        if m:
            g = m.groups()
            off = (int(g[8]) * 60 + int(g[9])) * (-1 if g[7] == '-' else 1) \
                if g[7] else 0
            return {'k': 'dt', 'y': int(g[0]), 'mo': int(g[1]),
                    'd': int(g[2]), 'h': int(g[3]), 'mi': int(g[4]),
                    'sec': int(g[5] or 0),
                    'us': int((g[6] or '').ljust(6, '0')), 'off': off,
                    'text': v}
        return S(v)
    if isinstance(v, list):
        l = [tagged(x) for x in v]
        return None if any(x is None or x['k'] == 'list' for x in l) \
            else {'k': 'list', 'l': l}
    if isinstance(v, dict):
        m = [[n, tagged(x)] for n, x in v.items()]
        return None if any(x is None for _, x in m) else {'k': 'map', 'm': m}


MOMENT = re.compile(r'^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d)(?::(\d\d))?'
                    r'(?:\.(\d{1,6}))?(?:Z|Z?([+-])(\d\d):(\d\d))$')


def corpus(voc):
    """The example documents of the repository that use the vocabulary."""
    res = []
    for f in sorted(glob.glob(os.path.join(core.REPO, 'sample_data',
                                           '*.json'))):
        try:
            d = json.load(open(f))
        except ValueError:
            continue
        if not isinstance(d, dict) or d.get('@context', NS) not in (NS, [NS]):
            continue

        def fits(v, top=False):
            if isinstance(v, list):
                return all(map(fits, v))
            if not isinstance(v, dict):
                return True
            t = v.get('type', v.get('@type'))
            if isinstance(t, list):
                return False
            if t not in voc['props'] and (top or t is not None):
                return False
            props = voc['props'].get(t, ())
            for n, x in v.items():
                if n.startswith('@') and not (
                        top and n == '@context' or n == '@type'):
                    return False
                if n in ('orderedItems', 'object') and n not in props:
                    return False
                # an object that only has an id, or has no type
                if n in props and voc['rules'][n]['refs'] and any(
                        isinstance(y, dict) and 'type' not in y
                        and '@type' not in y
                        for y in (x if isinstance(x, list) else [x])):
                    return False
            return all(fits(x) for n, x in v.items() if n != '@context')
        t = tagged(d)
        if t and fits(d, True):
            c = dict(map(tuple, t['m'])).get('@context', S(NS))
            res.append({'cfg': {}, 'ops': [
                {'op': 'read', 'd': t, 'ctx': c, 'as': 'text', 'slot': 0}] + [
                {'op': 'write', 'on': 0, 'as': 'json'},
                {'op': 'again', 'on': 0, 'as': 'text'}] + [
                {'op': 'get', 'on': 0, 'n': n} for n in d
                if n in voc['props'][d.get('type', d.get('@type'))]]})
    return res


def C21(rep, work):
    """Reading, making and writing."""
    big = rep.thorough
    voc, edges = model(rep, work, False)
    first = {e['t'] for e in edges if e['i']}
    jobs = model_jobs(rep, [
        e for e in edges if e['i'] or
        e['s'] in first and e['o']['op'] in ('write', 'again')], None, 3)
    docs = corpus(voc)
    rep.extra['example_documents'] = len(docs)
    jobs += docs
    jobs += random_jobs(rep, voc, 4000 if big else 500, 14,
                        [6, 2, 2, 4, 4, 0, 0, 0, 1], 'read')
    judge(rep, work, voc, jobs)


PIECES = ['http://', 'https://', 'HTTPS://', 'ftp://', 'http:', '//', 'acct:',
          'a.example', 'B-2.example', 'who', '@', ':', '8080', '/', '?', '#',
          'x=1', '.', '_', '^', ' ', 'é', '[', '%41', '&', '~', '']


def url_jobs(rep, n):
    rng = rep.rng('urls')
    jobs = []
    for _ in range(n):
        ops = []
        for _ in range(40):
            s = ''.join(rng.choice(PIECES) for _ in range(rng.randint(0, 6)))
            if rng.random() < .6:
                s = rng.choice(PIECES[:5]) + s
            if rng.random() < .2:
                s = rng.choice(['who', 'a.b', 'acct:x_1']) + '@' + s
            # (space around text is not specified)
            s = s.strip()
            if '@' in s and set(s) & set(' ^é%&~[?#=/'):
                continue
            ops.append({'op': 'valid', 's': s, 'secure': rng.random() < .3})
        jobs.append({'cfg': {}, 'ops': ops})
    return jobs


def tool_jobs(rep, n):
    """Rules of other packages."""
    r = rep.rng('tools')
    jobs = []

    def value(kinds, depth=0):
        if depth < 3 and r.random() < .35:
            return {'k': 'list', 'l': [value(kinds, depth + 1) for _ in
                                       range(r.choice([0, 1, 2, 2, 3, 4]))]}
        k = r.choice(kinds * 6 + ['none', 'str', 'num', 'map', 'float'])
        return {'none': {'k': 'none'}, 'bool': {'k': 'bool', 'b': True},
                'num': N(r.choice([0, 1, 5, 3, -2])),
                'float': {'k': 'float', 'f': r.choice(
                    ['0.5', '0.5', '0.0', '-1.5'])},
                'str': S(r.choice(['', 'abc', '5char', 'sixsix'])),
                'map': M(('a', N(1))), 'list': L(),
                'dt': {'k': 'dt', 'y': 2024, 'mo': 1, 'd': 2, 'h': 3, 'mi': 4,
                       'sec': 5, 'us': 0, 'off': 0}}[k]
    for _ in range(n):
        ops = []
        for _ in range(40):
            kinds = r.sample(['bool', 'num', 'float', 'str', 'map', 'dt',
                              'list'], r.choice([1, 1, 2, 3]))
            if 'bool' in kinds or 'num' in kinds:
                # (bool is a kind of number in Python)
                kinds = sorted(set(kinds) - {'bool'}) or ['num']
            rule = {'kinds': kinds, 'one': r.random() < .4,
                    'none': r.random() < .8,
                    'checks': r.sample(['nonnegative', 'short'],
                                       r.choice([0, 1, 1, 2])),
                    'bare': len(kinds) == 1 and r.random() < .3}
            ops.append({'op': 'accept', 'rule': rule, 'v': value(
                [k for k in kinds if k != 'list'] or ['none'])})
        jobs.append({'cfg': {}, 'ops': ops})
    return jobs


def C22(rep, work):
    """Setting properties."""
    big = rep.thorough
    voc, edges = model(rep, work, False)
    jobs = model_jobs(rep, edges, None if big else 300, 45)
    if big:
        # every property on every type that has it
        _, all_ = model(rep, work, True)
        jobs += model_jobs(rep, all_, 3500, 60)
    jobs += random_jobs(rep, voc, 2500 if big else 200, 24,
                        [1, 2, 12, 1, 0, 2, 0, 0, 0], 'set')
    jobs += url_jobs(rep, 1500 if big else 120)
    jobs += tool_jobs(rep, 1000 if big else 80)
    judge(rep, work, voc, jobs)


FOLLOW_CFG = '''SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS Opened
PROPERTIES Following
'''


def C23(rep, work):
    """Following links."""
    big = rep.thorough
    out, g, d = core.model_check(work, 'MCFollow', FOLLOW_CFG, workers=1,
                                 heap='8g', timeout=900)
    rep.count(g, d)
    jobs = model_jobs(rep, core.edges(out), None if big else 220, 50)
    rep_out, g, d = core.model_check(
        work, 'MCAs', MC_CFG.format(emit='NoEmit', all='FALSE').replace(
            'SPECIFICATION Spec', 'SPECIFICATION VocabSpec'), timeout=300)
    voc = info(rep_out)
    jobs += random_jobs(rep, voc, 3000 if big else 300, 24,
                        [3, 1, 3, 1, 0, 8, 4, 7, 1], 'follow')
    judge(rep, work, voc, jobs)
