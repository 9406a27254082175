"""ActivityStreams objects: read, made, changed, written, and followed."""
import copy, datetime, json, re
import drvlib as D
import as2web as web
from activitystreams import create_engine, models
from jsonld import ApplicationActivityJson
from jsonld.tools import (SetterValidator, is_nonnegative,
                          validate_acct_or_email, validate_url)

NAMES = []      # all there are in the vocabulary
UTC = datetime.timezone.utc
engine = create_engine()
MOMENT = re.compile(r'^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d)(?::(\d\d))?'
                    r'(?:\.(\d{1,6}))?(?:Z|Z?([+-])(\d\d):(\d\d))$')
PERIOD = re.compile(r'^P(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?'
                    r'(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)?$')


def moment(d):
    off = d.utcoffset()
    off = int(off.total_seconds() // 60) if off is not None else 0
    return {'k': 'dt', 'y': d.year, 'mo': d.month, 'd': d.day, 'h': d.hour,
            'mi': d.minute, 'sec': d.second, 'us': d.microsecond, 'off': off}


def text(s, out):
    """Text; what it says as a period too, or in documents as a moment."""
    if out:
        m = MOMENT.match(s)
        if m:
            g = m.groups()
            off = (int(g[8]) * 60 + int(g[9])) * (-1 if g[7] == '-' else 1) \
                if g[7] else 0
            return {'k': 'dt', 'y': int(g[0]), 'mo': int(g[1]), 'd': int(g[2]),
                    'h': int(g[3]), 'mi': int(g[4]), 'sec': int(g[5] or 0),
                    'us': int((g[6] or '').ljust(6, '0')), 'off': off}
    m = PERIOD.match(s)
    if m and len(s) > 1:
        n = [int(x or 0) for x in m.groups()]
        return {'k': 'str', 's': s, 'p': dict(zip(
            ('y', 'mo', 'd', 'h', 'mi', 'sec'), n))}
    return {'k': 'str', 's': s}


def enc(v, out=False, depth=0):
    if depth > 12:
        return {'k': 'deep'}
    if v is None:
        return {'k': 'none'}
    if type(v) is bool:
        return {'k': 'bool', 'b': v}
    if type(v) is int:
        return {'k': 'num', 'n': D.num(v)}
    if type(v) is float:
        return {'k': 'float', 'f': repr(v)}
    if type(v) is str:
        return text(v, out)
    if type(v) is datetime.datetime:
        return moment(v)
    if type(v) is datetime.timedelta:
        return {'k': 'dur', 'y': 0, 'mo': 0, 'd': v.days, 'h': 0, 'mi': 0,
                'sec': v.seconds}
    if type(v) is dict:
        return {'k': 'map', 'm': [[n, enc(x, out, depth + 1)]
                                  for n, x in v.items()]}
    if type(v) is list:
        return {'k': 'list', 'l': [enc(x, out, depth + 1) for x in v]}
    if isinstance(v, ApplicationActivityJson):
        t = type(v).__name__
        if type(v) is not getattr(engine, t, None):
            t = 'raw:' + t
        vals = {}
        for n in NAMES:
            try:
                x = v[n][n]
            except KeyError:
                continue
            if x is not None:
                vals[n] = enc(x, out, depth + 1)
        if not v.acontext:
            vals['acontext'] = enc(v.acontext)
        return {'k': 'node', 't': t, 'v': vals}
    return {'k': 'odd', 's': type(v).__name__}


def build(v, doc=False):
    k = v['k']
    if k == 'none':
        return None
    if k in ('bool', 'num', 'str'):
        return v[k[0]]
    if k == 'float':
        return float(v['f'])
    if k == 'list':
        l = [build(x, doc) for x in v['l']]
        return tuple(l) if v.get('x') == 'tuple' else l
    if k == 'map':
        return {n: build(x, doc) for n, x in v['m']}
    if k == 'dt':
        if v.get('text'):
            return v['text']
        if doc:
            o = v['off']
            return (f"{v['y']:04}-{v['mo']:02}-{v['d']:02}T{v['h']:02}:"
                    f"{v['mi']:02}:{v['sec']:02}.{v['us']:06}" + (
                        f"{'-' if o < 0 else '+'}{abs(o) // 60:02}:"
                        f"{abs(o) % 60:02}" if o else 'Z'))
        tz = None if v.get('x') == 'naive' else datetime.timezone(
            datetime.timedelta(minutes=v['off']))
        return datetime.datetime(v['y'], v['mo'], v['d'], v['h'], v['mi'],
                                 v['sec'], v['us'], tzinfo=tz)
    if k == 'dur' and doc:
        return 'P{y}Y{mo}M{d}DT{h}H{mi}M{sec}S'.format(**v)
    if k == 'dur':
        return datetime.timedelta(
            days=v['y'] * 365 + v['mo'] * 30 + v['d'],
            seconds=v['h'] * 3600 + v['mi'] * 60 + v['sec'])
    if k == 'new':
        return make(v['t'], v['m'], v.get('x') == 'raw')
    raise ValueError(k)


def make(t, pairs, raw=False):
    cls = getattr(models if raw else engine, t)
    # some types insist on being told about an id
    return cls(**{'id': None, **{n: build(x) for n, x in pairs}})


def valid(f, *a, **kw):
    return bool(f(*a, **kw))


PY = {'bool': bool, 'num': int, 'float': float, 'str': str, 'map': dict,
      'dt': datetime.datetime, 'list': list}


def nonnegative(v, **kw):
    if type(v) in (int, float):
        is_nonnegative(v, **kw)


def short(v, limit, **kw):
    if type(v) is str and len(v) > limit:
        raise ValueError(v)


def accept(rule, v):
    """What a setter with this rule is given."""
    got = []

    def put(obj, val):
        got.append(val)
    more = {} if rule['none'] else {'none_allowed': False}
    types = tuple(PY[k] for k in rule['kinds'])
    if 'short' in rule['checks']:
        more['limit'] = 5
    SetterValidator(
        types=types[0] if rule['bare'] else types, functional=rule['one'],
        additional=tuple({'nonnegative': nonnegative, 'short': short}[c]
                         for c in rule['checks']), **more).check(put)(None, v)
    assert len(got) == 1
    return got[0]


def read(given, how):
    if how == 'item':
        return engine[given]
    if how in ('list', 'tuple'):
        # one or several at a time
        n = len(given) % 3 + 1
        got = engine[(given,) * n if how == 'tuple' else [given] * n]
        if type(got) is not list or len(got) != n or \
                len({id(o) for o in got}) != n:
            raise KeyError('not one object for each document')
        return got[len(given) % n]
    return engine.from_json(given)


class World:
    def __init__(self):
        self.objs = []
        self.serving = {}

    def seen(self):
        """What the objects hold, with nothing on the web."""
        web.docs.clear()
        res = [enc(o) for o in self.objs]
        for url, d in self.serving.items():
            web.serve(url, d)
        return res

    def step(self, e):
        op = e['op']
        if op == 'read':
            d = build(e['d'], True)
            before = copy.deepcopy(d)
            given = json.dumps(d) if e['as'] != 'dict' or type(d) is not dict \
                else d
            try:
                self.objs.append(read(given, e['as']))
            finally:
                e['kept'] = d == before
            return {'tag': 'ok'}
        if op == 'new':
            self.objs.append(make(e['t'], e['m'], e.get('x') == 'raw'))
            return {'tag': 'ok'}
        if op == 'publish':
            if e['d']['k'] == 'down':
                self.serving.pop(e['url'], None)
            else:
                self.serving[e['url']] = '<html>' if e['d']['k'] == 'junk' \
                    else build(e['d'], True)
            return {'tag': 'ok'}
        if op == 'valid':
            v = validate_url(e['s'], secure=e['secure']) if e['secure'] \
                else validate_url(e['s'])
            return {'tag': 'valid', 'url': bool(v),
                    'acct': bool(validate_acct_or_email(e['s']))}
        if op == 'accept':
            return {'tag': 'obj', 'v': enc(accept(e['rule'], build(e['v'])))}
        o = self.objs[e['i'] - 1]
        if op == 'set':
            setattr(o, e['n'], build(e['v']))
            return {'tag': 'ok'}
        if op == 'write':
            d = json.loads(str(o) if e['as'] == 'str' else o.json()) \
                if e['as'] != 'data' else o.data()
            return {'tag': 'out', 'v': enc(d, True)}
        if op == 'again':
            n = engine.from_json(o.json() if e['as'] == 'text' else o.data())
            # what it holds is seen without the web
            web.docs.clear()
            e['asked'] = self.asked()
            return {'tag': 'obj', 'v': enc(n)}
        if op == 'get':
            x = getattr(o, e['n'])
        elif op == 'walk':
            x = o
            for n in e['ns']:
                x = getattr(x, n, None)
        elif op == 'members':
            x = list(o)
        e['asked'] = self.asked()
        web.docs.clear()
        return {'tag': 'obj', 'v': enc(x)}

    def asked(self):
        return [u for u, _ in web.asked if not web.is_context(u)]


def strip(v):
    if isinstance(v, dict):
        return {n: strip(x) for n, x in v.items()
                if n not in ('x', 'text') or type(x) is not str}
    return [strip(x) for x in v] if isinstance(v, list) else v


def run(job):
    web.docs.clear()
    NAMES[:] = job['names']
    w = World()
    ev, slots = [], {}
    for e in job['ops']:
        e = {**e, 'kept': True}
        if 'on' in e:
            e['i'] = slots.get(e.pop('on'))
            if not e['i']:
                continue
        slot, count = e.pop('slot', None), len(w.objs)
        for url, d in w.serving.items():
            web.serve(url, d)
        web.asked.clear()
        try:
            r = w.step(e)
        except (AttributeError, TypeError, ValueError, KeyError) as x:
            r = {'tag': type(x).__name__}
        if len(w.objs) > count:
            slots[slot] = len(w.objs)
        asked = e.pop('asked', None)
        if asked is None:
            asked = w.asked()
        ev.append({**strip(e), 'r': r, 'asked': sorted(set(asked)),
                   'obs': w.seen()})
    return {'cfg': {}, 'ev': ev}


if __name__ == '__main__':
    D.main(run)
