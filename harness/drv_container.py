"""Runs operations on real containers, in memory or stored in a database."""
import os, shutil, tempfile
import drvlib as D
from drvlib import R, dec, enc, key, unkey, error_tag, ratio, num

from citrine.storage.collection import Collection
from citrine.storage.group import Group
from citrine.storage.container import Container
from citrine.storage import utils


class Fault(Exception):
    """The commit that was made to fail."""


def mk_group(g):
    grp = Group(tuple(Collection(max_size=c) for c in g['caps']),
                strict=False)
    for k, v in g['items']:
        grp.insert(key(k), dec(v))
    grp.strict = g['strict']
    return grp


def make(cfg):
    if cfg['how'] == 'new':
        return Container.new(cfg['cap'], cfg['most'], cfg['strict'])
    groups = tuple(mk_group(g) for g in cfg['groups'])
    if cfg['p'] == 0:
        return Container(mk_group(cfg['prim']), groups, strict=cfg['strict'])
    return Container(groups[cfg['p'] - 1], groups, strict=cfg['strict'])


def obs_group(g):
    items = sorted(((unkey(k), enc(v)) for k, v in g.items()),
                   key=lambda x: x[0])
    return {'caps': [num(c.max_size) for c in g.collections],
            'strict': bool(g.strict), 'items': [list(i) for i in items]}


def observe(c):
    groups = list(c.groups)
    prim = [i + 1 for i, g in enumerate(groups) if g is c.primary]
    return {'prim': prim[0] if len(prim) == 1 else 0,
            'grps': [obs_group(g) for g in groups]}


def figures(c):
    return {'size': num(c.size), 'max_size': num(c.max_size),
            'capacity': num(c.capacity), 'used': num(c.used),
            'usage': ratio(c.usage), 'status': num(c.status),
            'strict': bool(c.strict),
            'groups': [{'size': num(g.size), 'max_size': num(g.max_size)}
                       for g in c.groups]}


class Holder:
    def __init__(self, cfg):
        self.mode = cfg.get('store', 'memory')
        self.every = cfg.get('persist', 0)
        self.n = 0
        self.tm = None
        self.crashes = None
        self.fault_at = 0
        c = make(cfg)
        if self.mode == 'memory':
            self.obj = c
            return
        from ZODB import DB
        from ZODB.FileStorage import FileStorage
        from ZODB.MappingStorage import MappingStorage
        from citrine.storage.transaction import TransactionManager
        import transaction
        self.DB, self.FS = DB, FileStorage
        self.dir = tempfile.mkdtemp(dir=D.SCRATCH)
        self.path = os.path.join(self.dir, 'db.fs')
        self.TM = (TransactionManager if cfg.get('tm') == 'citrine'
                   else transaction.TransactionManager)
        self.tm = self.TM()
        storage = (FileStorage(self.path) if self.mode == 'file'
                   else MappingStorage())
        # before there are connections: they keep the methods they have used
        self.hook(storage)
        self.db = DB(storage)
        self.conn = self.db.open(self.tm)
        self.conn.root()['c'] = c
        self.tm.commit()
        self.obj = self.conn.root()['c']

    def hook(self, st):
        """Notice, or refuse, every transaction that changes the database."""
        begin, finish = st.tpc_vote, st.tpc_finish

        def vote(*a, **k):
            if self.fault_at:
                self.fault_at -= 1
                if not self.fault_at:
                    raise Fault('commit refused')
            return begin(*a, **k)

        def fin(*a, **k):
            r = finish(*a, **k)
            if self.crashes is not None:
                p = os.path.join(self.dir, f'crash{len(self.crashes)}.fs')
                shutil.copy(self.path, p)
                self.crashes.append(p)
            return r

        st.tpc_vote, st.tpc_finish = vote, fin

    def tick(self):
        self.n += 1
        if self.mode != 'memory':
            self.tm.commit()
            if self.every and self.n % self.every == 0:
                self.fresh()

    def fresh(self):
        self.conn.close()
        self.db.cacheMinimize()
        self.conn = self.db.open(self.tm)
        self.obj = self.conn.root()['c']

    def stored(self):
        """What another connection, or a restarted process, finds."""
        import transaction
        tm = transaction.TransactionManager()
        conn = self.db.open(tm)
        try:
            return observe(conn.root()['c'])
        finally:
            tm.abort()
            conn.close()

    def reopen(self, path, recover):
        db = self.DB(self.FS(path))
        try:
            tm = self.TM()
            conn = db.open(tm)
            c = conn.root()['c']
            before = observe(c)
            reads = [[unkey(k), enc(c.read(k, 'absent')), num(c.has(k))]
                     for k in sorted({k for g in c.groups for k in g.keys()})]
            c.strict = False
            tm.commit()
            c.condense(transaction_manager=tm if recover else None)
            tm.commit()
            conn.close()
            conn = db.open(tm)
            after = observe(conn.root()['c'])
            conn.close()
            return {'obs': before, 'reads': reads, 'rec': after}
        finally:
            db.close()
            for f in os.listdir(self.dir):
                if f.startswith(os.path.basename(path)):
                    os.remove(os.path.join(self.dir, f))

    def done(self):
        if self.mode != 'memory':
            self.tm.abort()
            self.conn.close()
            self.db.close()
            shutil.rmtree(self.dir, ignore_errors=True)


def call(h, e):
    c, op = h.obj, e['op']
    if op == 'write':
        c.write(key(e['k']), dec(e['v']))
        return R('written')
    if op == 'read':
        k = key(e['k'])
        return R('val', vals=[enc(c.read(k, dec(e['d'][0])) if e['d']
                                  else c.read(k))])
    if op == 'has':
        return R('int', num=num(c.has(key(e['k']))))
    if op == 'in':
        return R('bool', num=int(key(e['k']) in c))
    if op == 'all':
        got = list(c)
        return R('pairs', keys=[unkey(k) for k, v in got],
                 vals=[enc(v) for k, v in got])
    if op == 'delete':
        return R('deleted', vals=[enc(v) for v in c.delete(key(e['k']))])
    if op == 'set_strict':
        c.strict = e['b']
        return R('none')
    if op == 'observe':
        return R('none')
    if op in ('condense', 'resize'):
        args = {'transfer': e['transfer']}
        if e.get('tm') and h.tm:
            args['transaction_manager'] = h.tm
        if op == 'condense':
            got = c.condense(**args)
        else:
            got = c.resize(e['cap'], e['most'], condense=e['condense'], **args)
        # what comes out is no longer part of the container, and empty
        ok = (isinstance(got, list)
              and not any(g is x for g in c.groups for x in got)
              and all(g.size == 0 for g in got))
        return R('groups' if ok else 'badgroups', num=len(got))
    raise SystemExit(f'unknown operation {op}')


def run(job):
    cfg = job['cfg']
    h = Holder(cfg)
    ev = [{'op': 'start', 'r': R('none'), 'obs': observe(h.obj),
           'fig': figures(h.obj)}]
    try:
        for e in job['ops']:
            e = dict(e)
            crash = e.get('crash') and h.mode == 'file' and e.get('tm')
            if crash:
                h.crashes = []
            h.fault_at = e.get('fault', 0) if h.tm else 0
            try:
                r = call(h, e)
            except (D.Hang, KeyboardInterrupt):
                raise
            except Exception as x:
                r = R(error_tag(x))
            h.fault_at = 0
            e['r'] = r
            paths, h.crashes = h.crashes, None
            e['obs'] = observe(h.obj)
            if job.get('figures'):
                e['fig'] = figures(h.obj)
            if e['op'] in ('resize', 'condense') and e.get('tm') and h.tm:
                e['stored'] = h.stored()
            if crash:
                e['crashes'] = [h.reopen(p, i % 2 == 0)
                                for i, p in enumerate(paths)]
            ev.append(e)
            h.tick()
    finally:
        h.done()
    c = {k: cfg[k] for k in ('how', 'cap', 'most', 'strict', 'groups', 'prim',
                             'p') if k in cfg}
    return {'cfg': c, 'ev': ev}


if __name__ == '__main__':
    D.main(run, 40)
