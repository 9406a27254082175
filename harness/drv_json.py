"""Objects as dictionaries and as JSON text."""
import collections, datetime, decimal, json
import drvlib as D
from jsonld import ApplicationActivityJson, contextualproperty
from jsonld.utils import JSON_DATA_CONTEXT


class Failure(Exception):
    pass


class Text(str):
    pass


class Other:
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


OTHER = {'2024-02-03': datetime.date(2024, 2, 3), '1.50': decimal.Decimal(
    '1.50'), '2020-01-01 00:00:00': datetime.datetime(2020, 1, 1)}


def make(name, kind):
    slot = 'slot_' + name

    def get(self):
        return self.__dict__.get(slot)

    def put(self, v):
        self.__dict__[slot] = v
    p = contextualproperty(get).setter(put)
    if kind == 'view':
        @p.getter_context(JSON_DATA_CONTEXT)
        def view(self):
            v = self.__dict__.get(slot)
            return None if v is None else [v]
    if kind == 'hide':
        @p.getter_context(JSON_DATA_CONTEXT)
        def hide(self):
            return None
    if kind == 'fail':
        @p.getter_context(JSON_DATA_CONTEXT)
        def fail(self):
            if self.__dict__.get(slot) is not None:
                raise Failure()
    return p


TRANS = {'wrap': lambda v: [v], 'word': lambda v: 'word',
         'drop': lambda v: None}
# a transformation is not asked what to make of nothing
TRANS = {n: lambda v, f=f: None if v is None else f(v)
         for n, f in TRANS.items()}


class World:
    def __init__(self, cfg):
        self.cfg = cfg
        kind = dict(cfg['kind'])
        self.classes = []
        for c in cfg['classes']:
            body = {n: make(n, kind.get(n, 'plain')) for n in c['native']}
            body.update({n: self.build(v) for n, v in c['fixed']})
            for l in c['trans']:
                body['default_transforms'] = {n: TRANS[t] for n, t in l}
            body['__init__'] = lambda self: ApplicationActivityJson.__init__(
                self, acontext='ctx')
            self.classes.append(type(
                'K', tuple(self.classes[p - 1] for p in c['parents'])
                or (ApplicationActivityJson,), body))
        self.objs = []

    def build(self, v):
        k = v['k']
        if k == 'none':
            return None
        if k == 'bool':
            return v['b']
        if k == 'num':
            return v['n']
        if k == 'float':
            return float(v['f'])
        if k == 'str':
            return Text(v['s']) if v.get('x') else v['s']
        if k == 'other':
            return OTHER.get(v['s']) or Other(v['s'])
        if k == 'obj':
            return self.objs[v['o'] - 1]
        if k == 'map':
            m = {n: self.build(x) for n, x in v['m']}
            return (collections.OrderedDict(m) if v.get('x') == 1 else
                    collections.defaultdict(list, m) if v.get('x') else m)
        l = [self.build(x) for x in v['l']]
        if k == 'iter':
            return collections.deque(l)
        return {'list': list, 'tuple': tuple, 'set': set}[k](l)

    def enc(self, v):
        if v is None:
            return {'k': 'none'}
        if type(v) is bool:
            return {'k': 'bool', 'b': v}
        if type(v) is int:
            return {'k': 'num', 'n': D.num(v)}
        if type(v) is float:
            return {'k': 'float', 'f': repr(v)}
        if isinstance(v, str):
            return {'k': 'str', 's': v}
        if isinstance(v, dict):
            return {'k': 'map', 'm': [[n, self.enc(x)] for n, x in v.items()]}
        if isinstance(v, ApplicationActivityJson):
            return {'k': 'obj', 'o': next(
                (j + 1 for j, o in enumerate(self.objs) if o is v), 0)}
        for k, t in (('list', list), ('tuple', tuple), ('set', set),
                     ('iter', collections.deque)):
            if type(v) is t:
                l = [self.enc(x) for x in v]
                return {'k': k, 'l': sorted(l, key=json.dumps)
                        if k == 'set' else l}
        return {'k': 'other', 's': str(v)}

    def obs(self, o):
        """What an object holds, without going through its properties."""
        res = []
        for n, v in vars(o).items():
            if n == '___acontext___':
                n = 'slot_acontext'
            if n.startswith('slot_') and v is not None:
                res.append([n[5:], self.enc(v)])
            elif n.startswith('_'):
                continue
            elif not n.startswith('slot_') and v is not None:
                res.append([n, self.enc(v)])
        return res


def strip(v):
    if isinstance(v, dict):
        return {n: strip(x) for n, x in v.items() if n != 'x'}
    return [strip(x) for x in v] if isinstance(v, list) else v


def own(d):
    """The name of the class may be among what was asked for."""
    return {n: v for n, v in d.items() if n != '__namespace__'} \
        if type(d) is dict else d


def step(w, e, ev):
    op = e['op']
    if op == 'new':
        w.objs.append(w.classes[e['c'] - 1]())
        return {'tag': 'ok'}
    o = w.objs[e['o'] - 1]
    if op == 'set':
        setattr(o, e['n'], w.build(e['v']))
        return {'tag': 'ok'}
    if op == 'get':
        return {'tag': 'val', 'v': w.enc(getattr(o, e['n']))}
    if op in ('index', 'items'):
        if op == 'items':
            got = list(o)
        else:
            ks = e['ns']
            how = e.get('as')
            ks = (ks[0] if how == 'one' and len(ks) == 1 else
                  tuple(ks) if how == 'tuple' else list(ks))
            got = o[ks]
            got = list(got.items())
        return {'tag': 'got', 'm': [[n, w.enc(v)] for n, v in got
                                    if n != '__namespace__']}
    p = e['p']
    cast = {'list': list, 'tuple': tuple, 'set': set}[e.get('as', 'list')]
    kw = {}
    if p['include'] or not e.get('bare'):
        kw['include'] = cast(p['include'])
    if p['exclude'] or not e.get('bare'):
        kw['exclude'] = cast(p['exclude'])
    if p['rename']:
        kw['rename'] = dict(p['rename'])
    if p['trans']:
        kw['transforms'] = {n: TRANS[t] for n, t in p['trans']}
    if p['none']:
        kw['include_none'] = True
    if not e.get('text'):
        if p['reject']:
            kw['reject_values'] = [w.build(v) for v in p['reject']]
        if not p['json']:
            kw['context'] = None
        return {'tag': 'out', 'v': w.enc(own(o.data(**kw)))}
    if e.get('min'):
        kw['minified'] = True
    if e.get('indent'):
        kw['indent'] = e['indent']
    text = str(o) if e['text'] == 'str' else o.json(**kw)
    d = json.loads(text)
    ev['compact'] = text == json.dumps(d, separators=(',', ':'))
    return {'tag': 'out', 'v': w.enc(own(d))}


def run(job):
    w = World(job['cfg'])
    ev = []
    for e in job['ops']:
        e = {**e, **({'min': bool(e.get('min')), 'compact': False}
                     if e['op'] == 'data' else {})}
        try:
            r = step(w, e, e)
        except D.Hang:
            raise
        except (AttributeError, TypeError, ValueError, KeyError, Failure,
                RecursionError) as x:
            r = {'tag': type(x).__name__}
        ev.append({**strip(e), 'r': r, 'obs': [w.obs(o) for o in w.objs]})
    c = job['cfg']
    return {'cfg': strip({'classes': [{k: x[k] for k in (
        'order', 'native', 'fixed', 'trans')} for x in c['classes']],
        'kind': c['kind']}), 'ev': ev}


if __name__ == '__main__':
    D.main(run)
