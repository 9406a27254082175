"""Runs operations on real groups and collections."""
import drvlib as D
from drvlib import R, dec, enc, key, unkey, error_tag, ratio, num

from citrine.storage.collection import Collection
from citrine.storage.group import Group


def make(cfg):
    caps, strict, how = cfg['caps'], cfg['strict'], cfg.get('how', 'direct')
    if how == 'collection':
        return Collection(max_size=caps[0], strict=strict)
    if how == 'size':
        return Group.new(size=len(caps), max_collection_size=caps[0],
                         strict=strict)
    if how == 'custom':
        return Group.new(custom=dict(enumerate(caps)), strict=strict)
    # what the collections were made with does not matter
    own = cfg.get('own') or [True]
    return Group(tuple(Collection(max_size=c, strict=own[i % len(own)])
                       for i, c in enumerate(caps)), strict=strict)


class Holder:
    """The group, either in memory or stored in a database."""

    def __init__(self, cfg):
        obj = make(cfg)
        self.every = cfg.get('persist', 0)
        if self.every:
            import transaction
            from ZODB import DB
            self.tm = transaction.TransactionManager()
            self.db = DB(None)
            self.conn = self.db.open(self.tm)
            self.conn.root()['g'] = obj
            self.tm.commit()
            self.obj = self.conn.root()['g']
        else:
            self.obj = obj
        self.n = 0

    def tick(self):
        self.n += 1
        if self.every and self.n % self.every == 0:
            self.tm.commit()
            self.conn.cacheMinimize()
            self.conn.close()
            self.conn = self.db.open(self.tm)
            self.conn.cacheMinimize()
            self.obj = self.conn.root()['g']


def collections(g):
    return [g] if isinstance(g, Collection) else list(g.collections)


def observe(g):
    return [[[unkey(k), enc(v)] for k, v in c.items()]
            for c in collections(g)]


def metrics(g):
    cs = collections(g)
    m = {'size': num(g.size), 'max_size': num(g.max_size),
         'usage': ratio(g.usage), 'status': num(g.status),
         'strict': bool(g.strict),
         'colls': [{'size': num(c.size), 'max_size': num(c.max_size),
                    'usage': ratio(c.usage), 'status': num(c.status),
                    'strict': bool(c.strict)} for c in cs]}
    if isinstance(g, Collection):
        m.update(max_collection_size=num(g.max_size), usages=[ratio(g.usage)],
                 highest=ratio(g.usage), lowest=ratio(g.usage))
    else:
        use = g.collection_usage
        m.update(max_collection_size=num(g.max_collection_size),
                 usages=[ratio(use[c]) for c in cs],
                 highest=ratio(g.highest_collection_usage),
                 lowest=ratio(g.lowest_collection_usage))
    return m


def opt(b, f=key):
    return f(b[0]) if b else None


def call(g, e):
    op = e['op']
    if op == 'insert':
        return R('int', num=num(g.insert(key(e['k']), dec(e['v']))))
    if op == 'update':
        r = g.update({key(k): dec(v) for k, v in e['items']})
        return R('none')
    if op == 'pop':
        k = key(e['k'])
        return R('val', vals=[enc(g.pop(k, dec(e['d'][0])) if e['d']
                                  else g.pop(k))])
    if op == 'popitem':
        k, v = g.popitem()
        return R('item', [unkey(k)], [enc(v)])
    if op == 'setdefault':
        return R('val', vals=[enc(g.setdefault(key(e['k']), dec(e['v'])))])
    if op == 'clear':
        g.clear()
        return R('none')
    if op == 'get':
        k = key(e['k'])
        return R('val', vals=[enc(g.get(k, dec(e['d'][0])) if e['d']
                                  else g.get(k))])
    if op == 'has_key':
        return R('bool', num=1 if g.has_key(key(e['k'])) else 0)
    if op == 'set_strict':
        # collections that have been switched on their own before
        for i, b in e.get('own', ()):
            if i < len(collections(g)):
                collections(g)[i].strict = b
        g.strict = e['b']
        return R('none')
    if op in ('iterkeys', 'itervalues', 'iteritems'):
        args = {}
        if e['lo']:
            args['min'] = key(e['lo'][0])
        if e['hi']:
            args['max'] = key(e['hi'][0])
        got = list(getattr(g, op)(**args))
        if op == 'iterkeys':
            return R('keys', [unkey(k) for k in got])
        if op == 'itervalues':
            return R('vals', vals=[enc(v) for v in got])
        return R('items', [unkey(k) for k, _ in got], [enc(v) for _, v in got])
    if op == 'byValue':
        got = list(g.byValue(dec(e['lo'][0])) if e['lo'] else g.byValue(-1))
        return R('items', [unkey(k) for _, k in got], [enc(v) for v, _ in got])
    if op == 'minKey':
        return R('key', [unkey(g.minKey(opt(e['lo'])) if e['lo']
                               else g.minKey())])
    if op == 'maxKey':
        return R('key', [unkey(g.maxKey(opt(e['hi'])) if e['hi']
                               else g.maxKey())])
    if op == 'keys':
        view = g.keys()
        got = [unkey(k) for k in view]
        return R('keys' if len(view) == len(got) else 'badlen', got)
    if op == 'values':
        view = g.values()
        got = [enc(k) for k in view]
        return R('vals' if len(view) == len(got) else 'badlen', vals=got)
    if op == 'items':
        view = g.items()
        got = list(view)
        return R('items' if len(view) == len(got) else 'badlen',
                 [unkey(k) for k, _ in got], [enc(v) for _, v in got])
    if op == 'observe':
        return R('none')
    raise SystemExit(f'unknown operation {op}')


def run(job):
    cfg = job['cfg']
    h = Holder(cfg)
    ev = []
    for e in job['ops']:
        e = dict(e)
        try:
            r = call(h.obj, e)
        except (D.Hang, KeyboardInterrupt):
            raise
        except Exception as x:
            r = R(error_tag(x, e['op'] in ('popitem', 'minKey', 'maxKey')))
        e['r'] = r
        if job.get('metrics'):
            e['obs'] = observe(h.obj)
            e['m'] = metrics(h.obj)
            e['ck'] = True
        else:
            e['ck'] = e.get('ck', True)
            e['obs'] = observe(h.obj) if e['ck'] else []
        ev.append(e)
        h.tick()
    return {'cfg': {'caps': cfg['caps'], 'strict': cfg['strict']}, 'ev': ev}


if __name__ == '__main__':
    D.main(run)
