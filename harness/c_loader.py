"""Loading documents from the web."""
import json
import core, gen

MC_CFG = '''SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANT MCEmit = TRUE
PROPERTIES AskedOnce FailuresForgotten NothingForbidden NoErrors
'''
TYPES = ['application/ld+json', 'application/json', 'application/activity+json',
         'application/problem_2+json', 'text/html', 'text/json',
         'application/xml', 'application/jsonp', 'text/plain']
CTX = 'http://www.w3.org/ns/json-ld#context'
BAD = '@ !$%&*+,;=~<>"\'()|{}^`äß–。'


def some_url(rng, sane=.8):
    scheme = rng.choice(['https'] * 5 + ['http'] * 2)
    host = rng.choice(['a.example', 'a.example', 'b.example:8443', 'c-d.example',
                       'e_f.example', 'g1.example'])
    path = rng.choice(['', '/', '/1', '/1', '/x/y.jsonld', '/q?a=1&b=2'])
    text = None
    if rng.random() > sane:
        x = rng.random()
        if x < .25:
            scheme = rng.choice(['ftp', 'file', 'httpx', 'xhttp', 'data', 'urn'])
        elif x < .35:
            scheme, text = '', rng.choice(['', '//', '/']) + host + path
            host = host if text.startswith('//') else ''
            if ':' in host or ':' in text.split('/')[0]:
                return some_url(rng, sane)
        elif x < .5:
            host = ''
            path = path or '/'
        else:
            n = rng.randrange(len(host) + 1)
            host = host[:n] + rng.choice(BAD) + host[n:]
    if text is None:
        text = f'{scheme}://{host}{path}'
    elif host == '' and text.startswith('/') and not text.startswith('//'):
        pass
    return {'text': text, 'scheme': scheme, 'host': [ord(c) for c in host],
            'site': f'{scheme}://{host}'}


def near(rng, u):
    """An url that differs from this one in a single place."""
    host = ''.join(map(chr, u['host']))
    rest = u['text'][len(u['site']):]
    scheme = u['scheme']
    if scheme not in ('http', 'https') or not u['text'].startswith(u['site']):
        return u
    x = rng.randrange(6)
    if x == 0:
        rest = rest[:-1] if rest.endswith('/') else rest + '/'
    elif x == 1:
        rest = rest + ('&c=3' if '?' in rest else '?c=3')
    elif x == 2 and '?' in rest:
        rest = rest.split('?')[0]
    elif x == 3 and rest.strip('/'):
        rest = rest.swapcase()
    elif x == 4:
        scheme = 'https' if scheme == 'http' else 'http'
    else:
        rest = rest + '2'
        if not rest.startswith('/'):
            rest = '/' + rest
    return {'text': f'{scheme}://{host}{rest}', 'scheme': scheme,
            'host': u['host'], 'site': f'{scheme}://{host}'}


def norm(u):
    """Requests adds the path that every url has."""
    if u['scheme'] in ('http', 'https') and u['text'] == u['site']:
        u = dict(u, text=u['text'] + '/')
    return u


def some_answer(rng, u, n):
    r = {'up': True, 'status': rng.choice([200] * 8 + [201, 203]),
         'json': True, 'body': {'n': n}, 'type': [rng.choice(TYPES[:4] * 2 + TYPES)],
         'links': [], 'final': u['text']}
    x = rng.random()
    if x < .1:
        return {'up': False}
    if x < .25:
        r['status'] = rng.choice([400, 401, 403, 404, 410, 429, 500, 502, 503])
    elif x < .35:
        r['json'] = False
    if rng.random() < .1:
        r['type'] = []
    if rng.random() < .15:
        r['body'] = rng.choice([[n], n, 'text', {'@context': {'a': 'b:c'}, 'n': [1, {}]}])
    if rng.random() < .15:
        r['final'] = 'https://other.example/%d' % n
    rels = [CTX] * rng.choice([0, 0, 0, 1, 1, 2, 3]) + ['alternate'] * rng.choice(
        [0, 0, 1]) + ['next'] * rng.choice([0, 0, 0, 1, 2])
    rng.shuffle(rels)
    for rel in rels:
        absolute = rng.random() < .6 or (rel == 'alternate' and r['final'] != u['text'])
        r['links'].append({
            'rel': rel, 'abs': absolute,
            'to': f'https://l.example/{n}' if absolute else f'/rel/{n}.jsonld',
            'type': rng.choice(['application/ld+json'] * 3 + ['', 'text/html'])})
    return r


def hdr(rng):
    return {'accept': ['application/own'] if rng.random() < .15 else [],
            'extra': ['mine'] if rng.random() < .15 else [],
            'empty': rng.random() < .3}


def random_jobs(rep, n, length):
    rng = rep.rng('load')
    jobs = []
    for _ in range(n):
        urls = [norm(some_url(rng, .7)) for _ in range(rng.choice([1, 2, 4]))]
        if rng.random() < .5:
            urls += [norm(near(rng, rng.choice(urls)))
                     for _ in range(rng.choice([1, 2]))]
        secure = rng.random() < .6
        hs = [hdr(rng) for _ in range(2)]
        ops = []
        for i in range(length):
            u = rng.choice(urls) if rng.random() < .8 else norm(some_url(rng))
            if rng.random() < .4:
                ops.append({'op': 'serve', 'u': u, 'w': some_answer(rng, u, i)})
                continue
            e = {'op': rng.choice(['load', 'cached', 'cached']), 'u': u,
                 'secure': rng.random() < .6, 'h': rng.choice(hs)}
            if e['op'] == 'cached':
                # loaders share what they keep
                e['secure'] = secure
            if rng.random() < .3:
                e['say'] = rng.randrange(2)
            if rng.random() < .3:
                e['another'] = True
            if rng.random() < .12 and legal(u):
                e = {'op': 'get', 'u': u, 'h': rng.choice(hs), 'raw': rng.random() < .3}
            ops.append(e)
        jobs.append({'ops': ops})
    return jobs


def legal(u):
    return u['scheme'] in ('http', 'https') and u['host'] and all(
        chr(c).isascii() and (chr(c).isalnum() or chr(c) in '-._:') for c in u['host'])


def corrupt(t, rng):
    evs = [e for e in t['ev'] if e['op'] != 'serve']
    if not evs:
        return False
    e = rng.choice(evs)
    e['asked'] = e['asked'] + e['asked'] if e['asked'] else [
        {'url': 'x', 'accept': '', 'extra': []}]
    return True


def C24(rep, work):
    big = rep.thorough
    out, g, d = core.model_check(work, 'MCLoader', MC_CFG, workers=1, heap='4g')
    rep.count(g, d)
    edges = core.edges(out)
    roots = {e['s'] for e in edges if e['i']}
    ws, left = gen.walks([(e['s'], json.dumps(e['o']), e['t']) for e in edges],
                         roots, rep.rng('walk'), 60, None if big else 250)
    rep.extra['model_transitions_to_cover'] = len(edges)
    rep.extra['model_transitions_left'] = left
    jobs = [{'ops': [json.loads(o) for o in ops]} for _, ops in ws]
    jobs += random_jobs(rep, 6000 if big else 700, 25)
    traces = core.run_driver(work, 'drv_loader.py', jobs)
    rep.judge('TraceLoader', 'SPECIFICATION Spec\n', traces, work, corrupt=corrupt)
    rep.sample(traces[0])
    rep.sample(traces[-1])
    rep.extra['operations_executed'] = sum(len(t['ev']) for t in traces)
    rep.assumptions.append('the transport adapter of the requests library is '
                           'replaced; redirects are shown by the final url only')
