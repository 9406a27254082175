"""Creates, opens and closes real database files."""
import os, queue, shutil, tempfile, threading
import drvlib as D
from drvlib import R, error_tag
from drv_container import observe
from drv_txn import data

import transaction
from ZODB import DB
from ZODB.FileStorage import FileStorage
from citrine.database.containerdb import ContainerDb
from citrine.storage.container import Container

BLANK = {'there': False, 'root': 'none', 'extra': False,
         'cont': {'grps': [], 'prim': 0}}


class Stop(Exception):
    """Leaves a block."""


class Worker:
    """A thread that enters and leaves blocks."""
    def __init__(self):
        self.todo, self.done = queue.Queue(), queue.Queue()
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()
        self.stack = []

    def loop(self):
        while (fn := self.todo.get()) is not None:
            try:
                self.done.put((fn(), None))
            except BaseException as x:
                self.done.put((None, x))

    def __call__(self, fn):
        self.todo.put(fn)
        r, x = self.done.get(timeout=60)
        if x is not None:
            raise x
        return r

    def enter(self, h, db):
        self.stack.append((h, db, db.__enter__()))
        return R('none')

    def leave(self):
        h, db, conn = self.stack.pop()
        db.__exit__(None, None, None)
        return R('bool', num=int(conn.opened is None))

    def say(self, d, e):
        conn = self.stack[d - 1][2]
        conn.transaction_manager.begin()
        return data(conn, e)

    def stop(self):
        for _, db, conn in reversed(self.stack):
            try:
                self(lambda: db.__exit__(None, None, None))
            except Exception:
                pass
        self.todo.put(None)


class World:
    def __init__(self, cfg):
        self.dir = tempfile.mkdtemp(dir=D.SCRATCH)
        self.cfg = cfg
        self.dbs = {}
        # which file each of them has open, and is it only read?
        self.at = {}
        self.names = {} if cfg.get('registry') else None
        self.n = 0
        self.workers = {1: Worker(), 2: Worker()}

    def path(self, p):
        return os.path.join(self.dir, f'd{p}.fs')

    def kw(self, h, name=None):
        if self.names is None:
            return {}
        self.n += 1
        return {'databases': self.names,
                'database_name': name or f'db{self.n}'}

    def named(self):
        """Whose databases the collection has, 0 for what is not open."""
        of = {id(db): h for h, db in self.dbs.items()}
        return sorted(of.get(id(db), 0) for db in (self.names or {}).values())

    def look(self, p):
        """What another program would find in the file."""
        if not os.path.exists(self.path(p)):
            return BLANK
        copy = os.path.join(self.dir, 'copy.fs')
        shutil.copy(self.path(p), copy)
        db = DB(FileStorage(copy))
        try:
            conn = db.open(transaction.TransactionManager())
            root = conn.root()
            c = root.get('container')
            o = {'there': True, 'extra': root.get('other') == 'kept',
                 'root': 'container' if isinstance(c, Container)
                         else 'none' if c is None else 'odd',
                 'cont': observe(c) if isinstance(c, Container)
                         else BLANK['cont']}
            if set(root) - {'container', 'other'}:
                o['root'] = 'odd'
            conn.close()
            return o
        finally:
            db.close()
            for f in os.listdir(self.dir):
                if f.startswith('copy.fs'):
                    os.remove(os.path.join(self.dir, f))

    def inside(self, h):
        if h not in self.dbs:
            return BLANK['cont']
        conn = self.dbs[h].open()
        try:
            return observe(conn.container)
        finally:
            conn.close()

    def done(self):
        for x in self.workers.values():
            x.stop()
        for db in self.dbs.values():
            db.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def shut(db):
    try:
        db.close()
    except AssertionError:
        # ZODB's own: connections in the pool may have been replaced among
        # those they were used with, and are then asked about a transaction
        # when the database they belong to has been closed before this one
        storage = db.__dict__.get('storage')
        if storage is None:
            raise
        storage.close()


def step(w, e):
    op = e['op']
    if op == 'plant':
        db = DB(FileStorage(w.path(e['p'])))
        conn = db.open(transaction.TransactionManager())
        if e['extra']:
            conn.root.other = 'kept'
        if e['root'] == 'container':
            conn.root.container = Container.new(7, 5000, strict=True)
        conn.transaction_manager.commit()
        conn.close()
        db.close()
        return R('none')
    if op == 'make':
        st = ContainerDb.create(w.path(e['p']), capacity=e['cap'],
                                strict=e['strict'], create=e['fresh'])
        st.close()
        return R('none')
    if op == 'new':
        w.dbs[e['h']] = ContainerDb.new(
            w.path(e['p']), capacity=e['cap'], strict=e['strict'],
            create=e['fresh'], **w.kw(e['h']))
        return R('none')
    if op == 'look':
        path = w.path(e['p'])
        if e['how'] == 'make':
            ContainerDb.create(path, create=e['fresh'], read_only=True).close()
        elif e['how'] == 'new':
            w.dbs[e['h']] = ContainerDb.new(path, create=e['fresh'],
                                            read_only=True, **w.kw(e['h']))
        elif e.get('given') == 'storage':
            own = FileStorage(path, read_only=True)
            try:
                w.dbs[e['h']] = ContainerDb.load(own, **w.kw(e['h']))
            except BaseException:
                own.close()
                raise
        else:
            w.dbs[e['h']] = ContainerDb(path, read_only=True, **w.kw(e['h']))
        return R('none')
    if op in ('open', 'taken', 'memory'):
        name = (next(n for n in w.names if w.names[n] is w.dbs[e['of']])
                if op == 'taken' else None)
        make = ContainerDb.load if e.get('via') == 'load' else ContainerDb
        what, own = None, None
        if op != 'memory':
            what = w.path(e['p'])
            if e.get('given') == 'storage':
                what = own = FileStorage(what)
        try:
            db = make(what, **w.kw(e['h'], name))
        except BaseException:
            if own:
                own.close()
            raise
        w.dbs[e['h']] = db
        return R('none')
    if op == 'close':
        shut(w.dbs.pop(e['h']))
        return R('none')
    if op == 'closeall':
        # databases that were joined are closed together
        for db in w.dbs.values():
            shut(db)
        w.dbs.clear()
        if w.names is not None:
            w.names.clear()
        return R('none')
    if op in ('leave', 'say'):
        x = w.workers[e['w']]
        return x(x.leave if op == 'leave' else lambda: x.say(e['d'], e['e']))
    db = w.dbs[e['h']]
    if op == 'enter':
        x = w.workers[e['w']]
        return x(lambda: x.enter(e['h'], db))
    if op == 'on':
        if e.get('use') == 'with':
            with db as conn:
                return data(conn, e['e'])
        if e.get('use') == 'other' and w.names is not None:
            # through a connection to another database of the collection
            mine = next(n for n in w.names if w.names[n] is db)
            other = next(iter(w.names.values()))
            conn = other.open()
            try:
                return data(conn.get_connection(mine), e['e'])
            finally:
                conn.close()
        conn = db.open()
        try:
            return data(conn, e['e'])
        finally:
            conn.close()
    conn = db.open()
    try:
        if op == 'setstrict':
            conn.strict = e['b']
            conn.transaction_manager.commit()
            return R('none')
        if op == 'strict':
            return R('bool', num=int(conn.strict))
        if op == 'block':
            with conn:
                # (asked for once: connections from the pool bring along those
                # they had been used with, and ZODB may then give another one)
                cs = {e['h']: conn}
                for s in e['steps']:
                    if s['h'] not in cs:
                        cs[s['h']] = conn.get_connection(next(
                            n for n in w.names
                            if w.names[n] is w.dbs[s['h']]))
                    data(cs[s['h']], s['e'])
                if e['how'] == 'raise':
                    raise Stop()
            return R('none')
    except BaseException:
        conn.transaction_manager.abort()
        raise
    finally:
        conn.close()
    raise SystemExit(op)


def run(job):
    cfg = job['cfg']
    w = World(cfg)
    ev = []
    try:
        for e in job['ops']:
            opens = (e['op'] in ('new', 'open', 'taken', 'memory', 'look')
                     and e.get('how') != 'make')
            need = [e['h']] if 'h' in e and not opens else []
            need += [s['h'] for s in e.get('steps', [])]
            need += [e['of']] if e['op'] == 'taken' else []
            if (opens and e['h'] in w.dbs) or not set(need) <= set(w.dbs):
                # the schedule expected a database to open that did not
                continue
            # (a file is not opened in both ways at a time)
            if e['op'] in ('plant', 'make', 'new', 'open', 'taken', 'look') and any(
                    h in w.dbs and (e['p'], e['op'] != 'look') == at
                    for h, at in w.at.items()):
                continue
            stack = w.workers[e['w']].stack if 'w' in e else ()
            if (e['op'] == 'leave' and not stack
                    or e['op'] == 'say' and len(stack) < e['d']
                    or e['op'] == 'enter' and len(stack) > 4
                    or e['op'] in ('close', 'closeall') and any(
                        e['op'] == 'closeall' or s[0] == e['h']
                        for x in w.workers.values() for s in x.stack)):
                continue
            try:
                r = step(w, e)
            except D.Hang:
                raise
            except Exception as x:
                r = R(error_tag(x))
            if opens and r['tag'] == 'none':
                w.at[e['h']] = (e.get('p', -1), e['op'] == 'look')
            sess = [[s[2].opened is not None for s in w.workers[x].stack]
                    for x in (1, 2)]
            ev.append({**e, 'r': r, 'sess': sess, 'named': w.named(),
                       'disk': [w.look(p + 1) for p in range(cfg['paths'])],
                       'mem': [w.inside(h + 1) for h in range(cfg['handles'])]})
    finally:
        w.done()
    return {'cfg': {'paths': cfg['paths'], 'handles': cfg['handles'],
                    'joined': bool(cfg.get('registry'))}, 'ev': ev}


if __name__ == '__main__':
    D.main(run)
