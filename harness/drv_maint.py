"""Resizes and condenses a container that other connections go on using.

Maintainers run in threads that take turns with the users: a maintainer stops
before and after each of its transactions.
"""
import os, shutil, tempfile, threading
import drvlib as D
from drvlib import R, dec, enc, key, unkey, error_tag, num
from drv_container import make, obs_group

from ZODB import DB
from ZODB.FileStorage import FileStorage
from ZODB.MappingStorage import MappingStorage
from ZODB.POSException import ConflictError
import transaction
from citrine.database.containerdb import ContainerDb
from citrine.storage.transaction import TransactionManager


def tag(e):
    return 'ConflictError' if isinstance(e, ConflictError) else error_tag(e)


def observe(c):
    groups = list(c.groups)
    prim = [i + 1 for i, g in enumerate(groups) if g is c.primary]
    return {'prim': prim[0] if len(prim) == 1 else 0,
            'grps': [dict(obs_group(g), id=int.from_bytes(g._p_oid, 'big'))
                     for g in groups]}


class Maintainer:
    def __init__(self, db, plain):
        self.tm = (transaction.TransactionManager() if plain
                   else TransactionManager())
        self.conn = db.open(transaction_manager=self.tm)
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.on = False
        self.free = False
        self.skip = 0
        self.dead = False
        self.tm.registerSynch(self)

    # called by the transaction manager
    def newTransaction(self, txn):
        pass

    def beforeCompletion(self, txn):
        # nothing to store, nothing to wait for
        self.some = not self.conn._needs_to_join
        if self.some:
            self.pause('before')

    def afterCompletion(self, txn):
        if getattr(self, 'some', False):
            self.some = False
            self.pause('after' if txn.status == 'Committed' else 'failed')

    def pause(self, at):
        if not self.on or self.free or threading.current_thread() is not self.thread:
            return
        if self.skip > 0:
            self.skip -= 1
            return
        self.at = at
        self.back.release()
        self.go.acquire()
        if self.dead:
            raise SystemExit

    def body(self):
        j = self.job
        try:
            if j['fresh']:
                self.on = False
                self.tm.begin()
                self.on = True
            c = self.conn.container
            args = {'transfer': j['transfer']}
            if j['tm']:
                args['transaction_manager'] = self.tm
            if j['op'] == 'resize':
                got = c.resize(j['cap'], j['most'], condense=j['all'], **args)
            else:
                got = c.condense(**args)
            n = len(got)
            if not j['tm']:
                self.tm.commit()
            self.r = R('groups' if not any(list(g.keys()) for g in got)
                       else 'groups that are not empty', num=n)
        except Exception as e:
            self.r = R(tag(e))
        self.on = False
        try:
            self.tm.abort()
        except Exception as e:
            self.r = R('abort failed: ' + tag(e))
        self.at = 'end'
        self.back.release()

    def start(self, job):
        self.job, self.on, self.skip = job, True, 0
        self.thread = threading.Thread(target=self.body, daemon=True)
        self.thread.start()
        self.back.acquire()

    def step(self, n=1):
        self.skip = n - 1
        self.go.release()
        self.back.acquire()

    def kill(self):
        if self.on:
            self.free = True
            self.go.release()
            self.back.acquire()


class World:
    def __init__(self, cfg):
        self.cfg = cfg
        self.dir = tempfile.mkdtemp(dir=D.SCRATCH)
        st = (FileStorage(os.path.join(self.dir, 'data.fs'))
              if cfg.get('store') == 'file' else MappingStorage())
        db = DB(st)
        conn = db.open(transaction.TransactionManager())
        conn.root.container = make(cfg)
        conn.transaction_manager.commit()
        conn.close()
        self.db = ContainerDb(st)
        self.users = [self.db.open(transaction_manager=TransactionManager())
                      for _ in range(cfg['users'])]
        self.how = [None] * cfg['users']
        self.maints = [Maintainer(self.db, cfg.get('plain'))
                       for _ in range(cfg['maints'])]
        self.pool = cfg['pool']

    def stored(self):
        tm = transaction.TransactionManager()
        c = self.db.open(transaction_manager=tm)
        try:
            return observe(c.container)
        finally:
            tm.abort()
            c.close()

    def close(self):
        for m in self.maints:
            m.kill()
        for u in self.users:
            u.transaction_manager.abort()
        for c in self.users + [m.conn for m in self.maints]:
            c.close()
        self.db.close()
        shutil.rmtree(self.dir, ignore_errors=True)


NO = object()


def data(w, c, e):
    op = e['op']
    if op == 'create':
        c.create(key(e['k']), dec(e['v']))
        return R('done')
    if op == 'update':
        return R('val', vals=[enc(c.update(key(e['k']), dec(e['v'])))])
    if op == 'delete':
        return R('deleted', vals=[enc(v) for v in c.delete(key(e['k']))])
    if op == 'read':
        return R('val', vals=[enc(c.read(key(e['k'])))])
    if op == 'look':
        got = [(k, c.read(key(k), NO)) for k in w.pool]
        return R('items', keys=[k for k, v in got if v is not NO],
                 vals=[enc(v) for k, v in got if v is not NO])
    raise SystemExit(op)


def call(w, e):
    op = e['op']
    if op == 'sync':
        w.maints[e['m'] - 1].tm.begin()
        return R('none')
    if op in ('start', 'step'):
        m = w.maints[e['m'] - 1]
        if op == 'start':
            m.start(e['job'])
        else:
            m.step(e.get('n', 1))
        e['at'] = m.at
        return m.r if m.at == 'end' else R('none')
    c = w.users[e['u'] - 1]
    tm = c.transaction_manager
    if op == 'begin':
        w.how[e['u'] - 1] = e['how']
        if e['how'] == 'block':
            c.__enter__()
        else:
            c.autocommit = False
            tm.begin()
        return R('none')
    if op in ('commit', 'abort'):
        how, w.how[e['u'] - 1] = w.how[e['u'] - 1], None
        if how == 'block':
            if op == 'commit':
                c.__exit__(None, None, None)
            else:
                x = ValueError('inside the block')
                c.__exit__(ValueError, x, None)
            return R('none')
        try:
            if op == 'commit':
                tm.commit()
            else:
                tm.abort()
        finally:
            tm.abort()
            c.autocommit = True
        return R('none')
    return data(w, c, e)


def run(job):
    cfg = job['cfg']
    w = World(cfg)
    ev = []
    try:
        start = w.stored()
        ops = list(job['ops'])
        done = False
        while ops or not done:
            if not ops:
                # whoever is still at work comes to an end
                ops = [{'op': 'commit', 'u': i + 1}
                       for i, h in enumerate(w.how) if h]
                ops += [{'op': 'step', 'm': i + 1, 'n': job.get('rest', 1)}
                        for i, m in enumerate(w.maints) if m.on]
                done = not ops
                continue
            e = dict(ops.pop(0))
            op = e['op']
            if op in ('start', 'sync', 'step') and (
                    w.maints[e['m'] - 1].on == (op != 'step')):
                continue
            if op in ('look', 'read') and not w.how[e['u'] - 1]:
                # outside of a transaction it may see any earlier state
                continue
            if op == 'begin' and w.how[e['u'] - 1]:
                continue
            if op in ('commit', 'abort') and not w.how[e['u'] - 1]:
                continue
            try:
                r = call(w, e)
            except (D.Hang, KeyboardInterrupt):
                raise
            except Exception as x:
                r = R(tag(x))
            e['r'] = r
            e['db'] = w.stored()
            ev.append(e)
    finally:
        w.close()
    return {'cfg': {'start': start, 'users': cfg['users'],
                    'maints': cfg['maints']}, 'ev': ev}


if __name__ == '__main__':
    D.main(run, 40)
