"""Loads documents from a web in place of the network."""
import json
import drvlib as D
import as2web as W
from requests.adapters import HTTPAdapter
import requests
from pyld.jsonld import JsonLdError
from jsonld.docloader import RequestsJsonLoader, CachedRequestsJsonLoader
from jsonld.utils import jsonld_get

web, asked = {}, []


def send(self, request, *a, **kw):
    h = request.headers
    asked.append({'url': request.url, 'accept': h.get('Accept', ''),
                  'extra': [h['X-Own']] if 'X-Own' in h else []})
    r = web.get(request.url)
    if not r or not r['up']:
        raise requests.ConnectionError('nothing there')
    p = requests.Response()
    p.status_code = r['status']
    p._content = (json.dumps(r['body']) if r['json'] else '<p>no {json').encode()
    p.encoding = 'utf-8'
    if r['type']:
        p.headers['Content-Type'] = r['type'][0]
    if r['links']:
        p.headers['Link'] = ', '.join(
            f'<{l["to"]}>; rel="{l["rel"]}"'
            + (f'; type="{l["type"]}"' if l['type'] else '') for l in r['links'])
    p.url = r['final']
    p.request, p.connection = request, self
    return p


HTTPAdapter.send = send


def headers(h):
    res = {}
    if h['accept']:
        res['Accept'] = h['accept'][0]
    if h['extra']:
        res['X-Own'] = h['extra'][0]
    return res or ({} if h.get('empty') else None)


def record(d):
    if set(d) != {'contentType', 'contextUrl', 'documentUrl', 'document'}:
        return {'keys': sorted(d)}
    return dict(d, contextUrl=[] if d['contextUrl'] is None else [d['contextUrl']])


def call(w, e):
    op = e['op']
    if op == 'serve':
        web[e['u']['text']] = e['w']
        return {'tag': 'ok'}
    if op == 'get':
        h = headers(e['h'])
        args = {} if h is None else {'headers': h}
        if e['raw']:
            args['json'] = False
        try:
            got = jsonld_get(e['u']['text'], **args)
        except Exception as x:
            if not isinstance(x, (requests.RequestException, ValueError)):
                raise
            return {'tag': 'failed'}
        if e['raw']:
            return {'tag': 'raw', 'status': got.status_code}
        return {'tag': 'got', 'body': got}
    cls = CachedRequestsJsonLoader if op == 'cached' else RequestsJsonLoader
    k = json.dumps([op, e['secure'], e['h']])
    if k not in w or e.get('another'):
        args = {}
        if not e['secure'] or e.get('say'):
            args['secure'] = e['secure']
        h = headers(e['h'])
        if h is not None:
            args['headers'] = h
        w[k] = cls(**args)
    more = [({},), ({'documentLoader': None},)][e['say']] if 'say' in e else ()
    try:
        return {'tag': 'loaded', 'rec': record(w[k](e['u']['text'], *more))}
    except JsonLdError:
        return {'tag': 'JsonLdError'}


def run(job):
    web.clear()
    CachedRequestsJsonLoader.cached_schemas.clear()
    w, ev = {}, []
    for e in job['ops']:
        e = dict(e)
        asked.clear()
        try:
            e['r'] = call(w, e)
        except D.Hang:
            raise
        except Exception as x:
            e['r'] = {'tag': type(x).__name__}
        e['asked'] = list(asked)
        ev.append(e)
    return {'cfg': {}, 'ev': ev}


if __name__ == '__main__':
    D.main(run)
