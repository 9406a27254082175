"""Serves storages over a socket and uses them with clients."""
import os, shutil, tempfile, threading, time
import drvlib as D
from drvlib import R, num
from drv_container import make, observe
from drv_txn import data, tag, KINDS

from served import serve
from ZEO.Exceptions import ClientDisconnected
from ZODB import DB
from ZODB.FileStorage import FileStorage
from persistent.mapping import PersistentMapping
from transaction import TransactionManager as PlainManager
from citrine.client.container_client import ContainerClient
from citrine.storage.transaction import TransactionManager

class Stop(Exception):
    pass


def network():
    return sum('zeo client networking' in t.name for t in threading.enumerate())


class World:
    def __init__(self, cfg):
        self.dir = tempfile.mkdtemp(prefix='cl', dir=D.SCRATCH)
        os.chdir(self.dir)
        self.cfg = cfg
        self.others = network()
        self.paths = [os.path.join(self.dir, 's%d.fs' % (n + 1))
                      for n in range(len(cfg['storages']))]
        for p, s in zip(self.paths, cfg['storages']):
            self.prepare(p, s)
        self.clients = [None] * cfg['clients']
        self.stop = None
        self.databases = {} if cfg['joined'] else None
        self.start()

    @staticmethod
    def prepare(path, s):
        if s['root'] == 'blank':
            return
        st = FileStorage(path)
        db = DB(st)
        conn = db.open(PlainManager())
        if s['root'] == 'container':
            conn.root.container = make(s['cont'])
        if s['extra']:
            conn.root.other = PersistentMapping({'kept': 1})
        conn.transaction_manager.commit()
        conn.close()
        db.close()

    def start(self):
        self.addr, self.stop = serve(self.paths, self.dir)
        # everybody gets in touch with it again
        self.wait(lambda: all(c.storage.is_connected() for c in self.clients if c))

    def down(self):
        stop, self.stop = self.stop, None
        stop()
        self.wait(lambda: not any(c.storage.is_connected()
                                  for c in self.clients if c))

    @staticmethod
    def wait(true, seconds=20):
        end = time.time() + seconds
        while not true() and time.time() < end:
            time.sleep(.005)
        return true()

    def look(self):
        """What is in the files of the server."""
        out = []
        for p in self.paths:
            copy = os.path.join(self.dir, 'copy.fs')
            if not os.path.exists(p) or os.path.getsize(p) < 5:
                out.append({'root': 'none', 'extra': False})
                continue
            shutil.copy(p, copy)
            db = DB(FileStorage(copy))
            try:
                conn = db.open(PlainManager())
                c = getattr(conn.root, 'container', None)
                o = conn.root().get('other')
                out.append({'root': 'none' if c is None else 'container',
                            'extra': o is not None and o == {'kept': 1}})
                if c is not None:
                    out[-1]['cont'] = observe(c)
                conn.close()
            finally:
                db.close()
                for f in os.listdir(self.dir):
                    if f.startswith('copy.fs'):
                        os.remove(os.path.join(self.dir, f))
        return out

    def threads(self):
        """The network connections there are; and is that as it should be?"""
        count = lambda: network() - self.others
        want = sum(c is not None for c in self.clients)
        self.wait(lambda: count() == want, 2)
        return count(), count() == want

    def close(self):
        for c in self.clients:
            if c:
                c.close()
        if self.stop:
            self.stop()
        os.chdir(D.SCRATCH)
        shutil.rmtree(self.dir, ignore_errors=True)

    # -----------------------------------------------------------------------
    def connect(self, e):
        args = {}
        if self.databases is not None:
            args = {'databases': self.databases, 'database_name': str(e['c'])}
        if e.get('read', 'ro') == 'ro':
            args['read_only'] = e['ro']
        args.update(e.get('more', {}))
        cache = None
        if e.get('cache'):
            cache = os.path.join(self.dir, 'c%d-%d.zec' % (e['c'], e['s']))
        addr = [self.addr] if e.get('addr') == 'list' else self.addr
        began = time.time()
        try:
            db = ContainerClient.connect(
                addr, cache, strict=e['strict'], storage_type=str(e['s']),
                create_missing_container=e['missing'],
                server_sync=e['sync'], wait_timeout=5 if self.stop else .1,
                **args)
        except ClientDisconnected:
            if not self.stop and time.time() - began > 4:
                return R('slow')
            raise
        # later failures need not take as long
        db.storage._server.timeout = .1
        db.storage._server.client.connect_poll = .02
        db.storage._server.client.register_failed_poll = .1
        self.clients[e['c'] - 1] = db
        return R('none')

    def call(self, e):
        op = e['op']
        if op == 'start':
            self.start()
            return R('none')
        if op == 'stop':
            self.down()
            return R('none')
        if op == 'connect':
            return self.connect(e)
        if op == 'make':
            ContainerClient.create(self.addr, os.path.join(self.dir, 'made.fs'))
            return R('none')
        if op in ('disconnect', 'all'):
            for n in ([e['c'] - 1] if op == 'disconnect'
                      else range(len(self.clients))):
                if self.clients[n]:
                    c, self.clients[n] = self.clients[n], None
                    c.close()
            if op == 'all' and self.databases is not None:
                self.databases.clear()
            return R('none')
        db = self.clients[e['c'] - 1]
        if op == 'on':
            # (the server is asked when a transaction begins)
            if e.get('use') == 'with':
                with db as conn:
                    conn.sync()
                    return data(conn, e['e'])
            tm = TransactionManager()
            conn = db.open(transaction_manager=tm)
            try:
                conn.sync()
                return data(conn, e['e'])
            finally:
                tm.abort()
                conn.close()
        if op == 'block':
            gone = False
            tm = TransactionManager()
            try:
                conn = db.open(transaction_manager=tm)
                try:
                    with conn:
                        for x in e['es']:
                            data(conn, x)
                        if e['how'] in ('down', 'bounce'):
                            gone = True
                            self.down()
                        if e['how'] == 'bounce':
                            self.start()
                        if e['how'] == 'raise':
                            raise Stop()
                    return R('none')
                finally:
                    tm.abort()
                    conn.close()
            finally:
                if e['how'] == 'down' and not gone:
                    self.down()
        raise SystemExit(op)


def possible(w, e):
    """Steps that the world is in no state for are left out."""
    c = w.clients[e['c'] - 1] if 'c' in e else None
    if e['op'] == 'start':
        return not w.stop
    if e['op'] == 'stop':
        return bool(w.stop)
    if e['op'] == 'connect':
        return c is None
    if e['op'] in ('disconnect', 'on', 'block'):
        if e.get('how') in ('down', 'bounce') and not w.stop:
            return False
        return c is not None
    return True


def run(job):
    cfg = job['cfg']
    w = World(cfg)
    ev = []
    try:
        start = w.look()
        for e in job['ops']:
            if not possible(w, e):
                continue
            e = dict(e)
            try:
                r = w.call(e)
            except Exception as x:
                r = R(tag(x))
            e['r'] = r
            e['disk'] = w.look()
            e['threads'], fine = w.threads()
            e['named'] = sorted(int(n) for n in w.databases or () if n.isdigit())
            ev.append(e)
            # what does not get an answer is not tried again and again
            if not fine or r['tag'] == 'slow':
                break
    finally:
        w.close()
    return {'cfg': {'start': start, 'clients': cfg['clients'],
                    'joined': cfg['joined']}, 'ev': ev}


if __name__ == '__main__':
    D.main(run, 90)
