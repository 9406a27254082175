"""Reads one id from several real databases."""
import os, shutil, tempfile, time
from datetime import timedelta
import drvlib as D
from drvlib import R, dec, enc, key, error_tag

from ZODB.FileStorage import FileStorage
from citrine.connection.container_connection import ContainerConnection
from citrine.connection.group_connection import GroupReadConnection
from citrine.database.containerdb import ContainerDb
from citrine.storage.transaction import TransactionManager


class SlowConnection(ContainerConnection):
    def read(self, *a, **k):
        time.sleep(.03)
        return super().read(*a, **k)


class SlowDb(ContainerDb):
    klass = SlowConnection


class World:
    def __init__(self, cfg):
        self.cfg = cfg
        self.dbs = [(SlowDb if cfg['slow'][d] else ContainerDb)(
                        None, **({} if cfg.get('unnamed') else
                                 {'database_name': f'db{d + 1}'}))
                    for d in range(cfg['dbs'])]
        self.tids = [[db.lastTransaction()] for db in self.dbs]
        self.group = None
        self.members = []

    def leave(self):
        if self.group:
            for c in self.group.connections:
                c.close()
        self.group = None


ev_seen = []


def step(w, e):
    op = e['op']
    if op == 'change':
        db = w.dbs[e['d'] - 1]
        c = db.open()
        try:
            if e['v']:
                c.update(key(e['k']), dec(e['v'][0]))
            else:
                with c:
                    # a change of the database in any case
                    c.update('~', len(w.tids[e['d'] - 1]))
                    c.delete(key(e['k']))
        finally:
            c.close()
        w.tids[e['d'] - 1].append(db.lastTransaction())
        return R('none')
    if op == 'join':
        w.leave()
        args = {}
        for d, p in zip(e['dbs'], e['past']):
            a = {}
            if p:
                a['at'] = w.tids[d - 1][p - 1]
            if p or e.get('own'):
                a['transaction_manager'] = TransactionManager()
            if a:
                args[f'db{d}'] = a
        dbs = [w.dbs[d - 1] for d in e['dbs']]
        dbs = {'tuple': tuple, 'list': list}[e.get('as', 'list')](dbs)
        kw = ({'transaction_manager': TransactionManager()}
              if e.get('shared') else {})
        w.group = GroupReadConnection(dbs, **kw, **args)
        return R('none')
    if op == 'refresh':
        for c in w.group.connections:
            c.sync()
        return R('none')
    if op == 'read':
        kw = {}
        if e['timeout'] == 'short':
            kw['timeout'] = timedelta(milliseconds=1)
        if e['timeout'] == 'long':
            # enough for every database, however it is put
            kw['timeout'] = (timedelta(days=1), timedelta(seconds=60),
                             timedelta(minutes=2, milliseconds=300)
                             )[len(ev_seen) % 3]
            ev_seen.append(1)
        if e['multiple'] or e.get('say'):
            kw['multiple'] = e['multiple']
        got = w.group.read(key(e['k']), **kw)
        if not e['multiple']:
            return R('nothing') if got is None else R('val', vals=[enc(got)])
        if not got:
            return R('nothing')
        cs = list(w.group.connections)
        if not isinstance(got, dict):
            return R('odd')
        # the connections of the group are in the order of its databases
        of = {id(c): d for c, d in zip(cs, w.members)}
        return R('found', keys=[[of[id(c)]] for c in got],
                 vals=[enc(v) for v in got.values()])
    raise SystemExit(op)


def run(job):
    w = World(job['cfg'])
    ev = []
    for e in job['ops']:
        e = dict(e)
        if e['op'] in ('read', 'refresh') and not w.group:
            continue
        if e['op'] == 'join':
            e['past'] = [p % (len(w.tids[d - 1]) + 1)
                         for d, p in zip(e['dbs'], e['past'])]
            w.members = e['dbs']
        if e['op'] == 'read':
            e.setdefault('timeout', 'none')
            e['late'] = e['timeout'] == 'short' and any(
                job['cfg']['slow'][d - 1] for d in w.members)
            if e['timeout'] == 'short' and not e['late']:
                e['timeout'] = 'long'
        try:
            r = step(w, e)
        except D.Hang:
            raise
        except Exception as x:
            r = R(error_tag(x))
        ev.append({**e, 'r': r})
    w.leave()
    for db in w.dbs:
        db.close()
    return {'cfg': {'dbs': job['cfg']['dbs']}, 'ev': ev}


if __name__ == '__main__':
    D.main(run)
