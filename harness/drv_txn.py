"""Runs transactions of several connections on a real database."""
import json, os, shutil, subprocess, sys, tempfile, threading
import drvlib as D
from drvlib import R, dec, enc, key, unkey, error_tag, num
from drv_container import make, observe

from ZODB import DB
from ZODB.FileStorage import FileStorage
from ZODB.MappingStorage import MappingStorage
from ZODB.POSException import ConflictError
import transaction
from persistent.mapping import PersistentMapping
from citrine.connection.connection import CitrineConnection
from citrine.connection.container_connection import ContainerConnection
from citrine.database.containerdb import ContainerDb
from citrine.persistence import DbContainer, DbMetadata
from citrine.exceptions import ObjectOverwriteError
from citrine.storage.collection import CollectionCapacityError
from citrine.storage.container import Metadata
from citrine.storage.storage import ManagedStorage
from citrine.storage.transaction import TransactionManager, ThreadTransactionManager


class Fault(Exception):
    """The storage refuses the commit."""


class Empty(Exception):
    """An exception that counts as false."""
    def __bool__(self):
        return False


# what may leave a block
LEAVES = [ValueError('inside the block'), KeyError('k1 not found'),
          KeyboardInterrupt(), ObjectOverwriteError('k1'), SystemExit(0),
          ConflictError('inside the block'), GeneratorExit(), Empty(),
          CollectionCapacityError('inside the block'), StopIteration(),
          IndexError('inside the block'), Fault()]


WRITES = ('create', 'update', 'delete')


def tag(e):
    return 'ConflictError' if isinstance(e, ConflictError) else error_tag(e)


class LegacyStorage(ManagedStorage):
    klass = CitrineConnection


KINDS = {'container': ContainerDb, 'managed': ManagedStorage,
         'legacy': LegacyStorage}


def look(c):
    """The contents of either kind of container."""
    if not isinstance(c, DbContainer):
        return observe(c)
    items = sorted([unkey(k), enc(v)] for m in c.containers.values()
                   for k, v in m.items())
    return {'prim': 1, 'grps': [{'caps': [1] * len(c.containers),
                                 'strict': False, 'items': items}]}


def legacy(cfg):
    c = DbContainer(PersistentMapping(
        {i: PersistentMapping() for i in range(cfg['n'])}))
    for g in cfg['groups']:
        for k, v in g['items']:
            c.write(key(k), dec(v))
    return c


class World:
    def __init__(self, cfg):
        self.kind = cfg.get('kind', 'container')
        self.dir = tempfile.mkdtemp(dir=D.SCRATCH)
        self.path = os.path.join(self.dir, 'data.fs')
        self.file = cfg.get('store') in ('file', 'served')
        st = FileStorage(self.path) if self.file else MappingStorage()
        db = DB(st)
        conn = db.open(transaction.TransactionManager())
        # was it prepared, and by whom?
        made = cfg.get('made', 'whole')
        if made != 'afresh':
            conn.root.container = (legacy if self.kind == 'legacy' else make)(cfg)
            first = look(conn.root.container)
        if made in ('whole', 'again') and self.kind != 'container':
            conn.root.meta = DbMetadata() if self.kind == 'legacy' else Metadata()
        conn.transaction_manager.commit()
        conn.close()
        self.dbs = []
        if cfg.get('store') == 'served':
            # each connection is one of another client of a server
            import served
            db.close()
            addr, self.stop = served.serve([self.path], self.dir)
            self.dbs = [served.ContainerClient.connect(addr, None, server_sync=True)
                        for _ in range(cfg['conns'] + 1)]
            self.db = self.dbs.pop()
        elif made != 'whole':
            self.db = KINDS[self.kind].new(st)
        else:
            self.db = KINDS[self.kind](st)
        # what was committed last before each of the operations
        self.tids = []
        self.tms = cfg.get('tms', 'default')
        self.conns = [self.open(n) for n in range(cfg['conns'])]
        if made == 'afresh':
            # nothing is in it; its layout is not of interest
            first = self.stored()
            for g in first['grps']:
                g['items'] = []
        self.start = first

    def open(self, n):
        db = self.dbs[n] if self.dbs else self.db
        if self.tms == 'default':
            return db.open()
        if self.tms == 'thread':
            return db.open(transaction_manager=ThreadTransactionManager())
        return db.open(transaction_manager=TransactionManager())

    def ask(self, n):
        """The server is asked for news when a transaction begins."""
        if self.dbs:
            self.conns[n].sync()

    def stored(self):
        tm = TransactionManager()
        c = self.db.open(transaction_manager=tm)
        if self.dbs:
            c.sync()
        try:
            return look(c.container)
        finally:
            tm.abort()
            c.close()

    def disk(self):
        p = os.path.join(self.dir, 'copy.fs')
        shutil.copy(self.path, p)
        db = KINDS[self.kind](FileStorage(p))
        try:
            c = db.open(transaction_manager=TransactionManager())
            o = look(c.container)
            c.close()
            return o
        finally:
            db.close()
            for f in os.listdir(self.dir):
                if f.startswith('copy.fs'):
                    os.remove(os.path.join(self.dir, f))

    def close(self):
        for c in self.conns:
            c.transaction_manager.abort()
            c.close()
        self.db.close()
        for db in self.dbs:
            db.close()
        if self.dbs:
            self.stop()
            os.chdir(D.SCRATCH)
        shutil.rmtree(self.dir, ignore_errors=True)


def elsewhere(w, ids):
    """What another process reads in the file, as reads of the last version."""
    code = ('import json, sys\n'
            'from drv_txn import *\n'
            'path, kind, ids = json.loads(sys.argv[1])\n'
            'real = os.fdopen(os.dup(1), "w")\n'
            'os.dup2(2, 1)\n'
            'db = KINDS[kind](path)\n'
            'c = db.open(TransactionManager())\n'
            'out = []\n'
            'for k in ids:\n'
            '    try:\n'
            '        out.append(R("val", vals=[enc(c.read(key(k)))]))\n'
            '    except Exception as x:\n'
            '        out.append(R(tag(x)))\n'
            'real.write(json.dumps(out))\n'
            'real.flush()\n')
    p = os.path.join(w.dir, 'elsewhere.fs')
    shutil.copy(w.path, p)
    env = {**os.environ, 'PYTHONHASHSEED': '7'}
    env['PYTHONPATH'] = os.path.dirname(os.path.abspath(__file__))
    try:
        got = subprocess.run(
            [sys.executable, '-B', '-c', code, json.dumps([p, w.kind, ids])],
            env=env, capture_output=True, text=True, timeout=30, cwd=w.dir)
        return json.loads(got.stdout)
    except (ValueError, subprocess.TimeoutExpired):
        return [R('no answer')] * len(ids)


def written(c, e):
    """The object to write: a new one, or the stored one changed in place."""
    new = dec(e['v'])
    if e['op'] != 'update' or not e.get('inplace'):
        return new, None, False
    # (what is in another group is not replaced, so it must not be changed)
    first = getattr(c.container, 'primary', None)
    if first is not None and not first.has_key(key(e['k'])):
        return new, None, False
    x = c.read(key(e['k']))
    if type(x) is not type(new) or not isinstance(x, (list, dict)):
        return new, None, False
    old = enc(x)
    x.clear()
    x.extend(new) if isinstance(x, list) else x.update(new)
    return x, old, True


def plain(c, e):
    """Connections whose operations write over what is there."""
    op = e['op']
    if op in ('create', 'update'):
        getattr(c, op)(key(e['k']), written(c, e)[0])
        return R('done')
    if op == 'delete':
        c.delete(key(e['k']))
        return R('done')
    if op == 'expand':
        c.expand_containers(e['n'])
        return R('done')
    if op == 'read':
        return R('val', vals=[enc(c.read(key(e['k'])))])
    if op == 'item':
        return R('val', vals=[enc(c[key(e['k'])])])
    if op == 'many':
        ids = [key(k) for k in e['ids']]
        return R('vals', vals=[enc(v) for v in c[ids]])
    if op == 'badindex':
        c[1:2]
        return R('none')
    if op == 'figures':
        return R('int', num=num(c.size))
    raise SystemExit(op)


def data(c, e):
    if not isinstance(c, ContainerConnection):
        return plain(c, e)
    op = e['op']
    if op == 'create':
        c.create(key(e['k']), dec(e['v']))
        return R('done')
    if op == 'update':
        new, old, kept = written(c, e)
        got = c.update(key(e['k']), new)
        return R('val', vals=[old if kept and got is new else enc(got)])
    if op == 'delete':
        got = c.delete(key(e['k']))
        return R('deleted' if isinstance(got, tuple) else 'bad',
                 vals=[enc(v) for v in got])
    if op == 'read':
        return R('val', vals=[enc(c.read(key(e['k']), dec(e['d'][0]))
                                  if e['d'] else c.read(key(e['k'])))])
    if op == 'item':
        return R('val', vals=[enc(c[key(e['k'])])])
    if op == 'many':
        ids = [key(k) for k in e['ids']]
        how = e.get('as', 'list')
        ids = (tuple(ids) if how == 'tuple' else iter(ids) if how == 'iter'
               else ids)
        got = c[ids]
        return R('vals' if isinstance(got, list) else 'bad',
                 vals=[enc(v) for v in got])
    if op == 'badindex':
        c[7]
        return R('none')
    if op == 'figures':
        m = c.meta
        if (c.used, c.capacity, c.status, c.usage, c.strict) != (
                m.used, m.capacity, m.status, m.usage, m.strict):
            return R('figures differ')
        return R('figures', num=num(c.used * 1000000 + c.capacity * 1000
                                    + c.status))
    raise SystemExit(op)


def refuse(c):
    def vote(*a):
        raise Fault()
    c.tpc_vote = vote


def unhook(c):
    for n in ('tpc_vote', 'tpc_begin'):
        c.__dict__.pop(n, None)


def automatic(c, to=None):
    if isinstance(c, ContainerConnection):
        if to is not None:
            c.autocommit = to
        return bool(c.autocommit)
    if to is not None:
        c.auto_transaction = to
    return bool(c.auto_transaction and c.transaction_manager.autocommit)


def still_open(db):
    return sum(1 for c in db.connectionDebugInfo() if c['opened'])


def call(w, e):
    c, op = w.conns[e['c'] - 1], e['op']
    if e.get('fault'):
        refuse(c)
    if op == 'raced':
        d = w.conns[e['d'] - 1]
        begin, once = c.tpc_begin, []

        def tpc_begin(*a):
            if not once:
                once.append(1)
                try:
                    data(d, e['o'])
                except Exception as x:
                    once.append(x)
            return begin(*a)
        c.tpc_begin = tpc_begin
        try:
            return data(c, e['e'])
        finally:
            if not once:
                # nothing was committed, so the other one comes after it
                try:
                    data(d, e['o'])
                except Exception:
                    pass
    if op == 'setup':
        c.setup()
        return R('none')
    if op == 'past' and e.get('db') and w.kind != 'container':
        # a temporary connection of the database itself
        if e['db'] == 'item':
            return R('val', vals=[enc(w.db[key(e['e']['k'])])])
        if e['db'] == 'nested':
            # blocks inside one another, and of another thread
            used = still_open(w.db)
            with w.db as outer:
                with w.db as conn:
                    first = data(conn, e['e'])
                r = data(outer, e['e'])
                if conn.opened is not None:
                    return R('left open')
            return r if r == first and still_open(w.db) == used else R('mixed')
        if e['db'] == 'thread':
            used = still_open(w.db)
            inside, go = threading.Event(), threading.Event()

            def other():
                try:
                    with w.db:
                        inside.set()
                        go.wait(60)
                finally:
                    inside.set()
            t = threading.Thread(target=other, daemon=True)
            try:
                with w.db as outer:
                    t.start()
                    inside.wait(60)
                    r = data(outer, e['e'])
                # the other thread is still inside its block
                ok = still_open(w.db) == used + 1
            finally:
                go.set()
                t.join(60)
            return r if ok and still_open(w.db) == used else R('mixed')
        with w.db as conn:
            return data(conn, e['e'])
    if op == 'past':
        # a connection to what was committed then
        past = w.db.open(transaction_manager=TransactionManager(),
                         at=w.tids[e['n'] - 1])
        try:
            return data(past, e['e'])
        finally:
            past.close()
    if op == 'enter':
        c.__enter__()
        return R('none')
    if op == 'exit':
        if e['how'] == 'raise':
            x = LEAVES[e.get('x', 0)]
            got = c.__exit__(type(x), x, None)
        else:
            got = c.__exit__(None, None, None)
        return R('swallowed' if got else 'none')
    if op == 'off':
        automatic(c, False)
        c.transaction_manager.begin()
        return R('none')
    if op == 'on':
        automatic(c, True)
        return R('none')
    if op == 'commit':
        c.transaction_manager.commit()
        return R('none')
    if op == 'abort':
        c.transaction_manager.abort()
        return R('none')
    if op == 'refresh':
        c.sync()
        return R('none')
    if op == 'reconnect':
        c.close()
        w.conns[e['c'] - 1] = w.open(e['c'] - 1)
        return R('none')
    return data(c, e)


def run(job):
    cfg = job['cfg']
    w = World(cfg)
    free = [True] * cfg['conns']
    ev = []
    try:
        for e in job['ops']:
            e = dict(e)
            c = w.conns[e['c'] - 1]
            w.tids.append(w.db.storage.lastTransaction())
            if e['op'] == 'past':
                e['n'] = (len(w.tids) if e.get('db')
                          else e['n'] % len(w.tids) + 1)
            try:
                r = call(w, e)
            except (D.Hang, KeyboardInterrupt):
                raise
            except Exception as x:
                r = R(tag(x))
                if e['op'] == 'commit':
                    # automatic commits are off: the user cleans up
                    c.transaction_manager.abort()
            unhook(c)
            if e['op'] in ('commit', 'abort'):
                c.transaction_manager.begin()
            elif (e['op'] in ('exit', 'reconnect', 'raced')
                  or e['op'] in WRITES and free[e['c'] - 1]):
                for n in {e['c'], e.get('d', e['c'])}:
                    w.ask(n - 1)
            if e['op'] in ('enter', 'exit', 'off', 'on'):
                free[e['c'] - 1] = e['op'] in ('exit', 'on')
            e['r'] = r
            e['auto'] = [automatic(x) for x in w.conns]
            e['db'] = w.stored()
            if w.file and e.get('look'):
                e['disk'] = w.disk()
            ev.append(e)
        if w.file and job.get('elsewhere'):
            w.tids.append(None)
            for k, r in zip(job['elsewhere'], elsewhere(w, job['elsewhere'])):
                ev.append({**ev[-1], 'op': 'past', 'n': len(w.tids), 'c': 1,
                           'e': {'op': 'read', 'k': k, 'd': []}, 'r': r})
                w.tids.append(None)
    finally:
        w.close()
    return {'cfg': {'start': w.start, 'conns': cfg['conns']}, 'ev': ev}


if __name__ == '__main__':
    D.main(run, 40)
