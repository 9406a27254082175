"""Asks for new groups and containers of all sizes."""
import os
import shutil
import tempfile
import drvlib as D
from drvlib import num
from citrine.storage.group import Group
from citrine.storage.container import Container
from citrine.storage.collection import Collection
from citrine.storage import utils
from citrine.database.containerdb import ContainerDb


def ans(tag, nums=(), strict=False):
    return {'tag': tag, 'nums': [num(n) for n in nums], 'strict': strict}


def caps(g):
    flags = {c.strict for c in g.collections}
    return ans('caps' if len(flags) == 1 else 'mixed strict',
               [c.max_size for c in g.collections], bool(g.strict))


def call(e):
    op = e['op']
    if op == 'collections':
        return ans('int', [utils.number_of_collections(e['cap'], e['most'])])
    if op == 'next':
        return ans('int', [utils.next_number_of_collections(e['cap'], e['most'])])
    if op == 'primes':
        return ans('ints', utils.get_primes(e['lo'], e['hi']))
    if op == 'container':
        c = Container.new(e['cap'], e['most'], e['strict'])
        if len(c.groups) != 1 or c.groups[0] is not c.primary:
            return ans('several groups')
        if c.strict is not e['strict']:
            return ans('strict')
        return caps(c.primary)
    if op == 'group':
        return caps(Group.new(size=e['size'], max_collection_size=e['most'],
                              strict=e['strict']))
    if op == 'custom':
        custom = {k: v for k, v in e['custom']}
        before = dict(custom)
        g = Group.new(custom=custom, size=e['size'] or None,
                      max_collection_size=e['most'], strict=e['strict'])
        if custom != before:
            return ans('changed the definition')
        return caps(g)
    if op == 'given':
        cols = [Collection(max_size=s, strict=f) for s, f in
                zip(e['sizes'], e['flags'])]
        if e['same']:
            cols.insert(e['at'], Collection(uuid=cols[0].uuid, max_size=1))
        return caps(Group(tuple(cols), strict=e['strict']))
    if op == 'holder':
        groups = [Group((Collection(max_size=g['size']),), strict=g['strict'])
                  for g in e['groups']]
        if e['primary']:
            primary, want = groups[e['primary'] - 1], groups
        else:
            m = e['more']
            primary = Group((Collection(max_size=m['size']),), strict=m['strict'])
            want = [primary, *groups]
        c = Container(primary, groups=tuple(groups), strict=e['strict'])
        if len(c.groups) != len(want) or any(
                a is not b for a, b in zip(c.groups, want)):
            return ans('other groups')
        at = [j for j, g in enumerate(c.groups) if g is c.primary]
        nums = [at[0] + 1, len(c.groups)] if len(at) == 1 else [0]
        for g in c.groups:
            nums += [g.max_size, int(g.strict)]
        return ans('holder', nums, bool(c.strict))
    if op == 'db':
        tmp = tempfile.mkdtemp()
        try:
            return database(e, os.path.join(tmp, 'db.fs'))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    raise SystemExit(op)


def database(e, path):
    def make(cap, strict):
        if e['how'] == 'create':
            return ContainerDb.load(ContainerDb.create(path, capacity=cap, strict=strict))
        return ContainerDb.new(path, capacity=cap, strict=strict)

    def look(db):
        conn = db.open()
        c = conn.container
        r = caps(c.primary)
        if len(c.groups) != 1 or c.groups[0] is not c.primary:
            r = ans('several groups')
        elif (bool(c.strict), bool(conn.strict)) != (r['strict'],) * 2:
            r = ans('strict')
        conn.close()
        db.close()
        return r
    r = look(make(e['cap'], e['strict']))
    for cap, strict in e['again']:
        if look(make(cap, strict)) != r:
            return ans('changed when it was made again')
    if look(ContainerDb(path)) != r:
        return ans('changed when it was opened again')
    return r


def run(job):
    ev = []
    for e in job['ops']:
        try:
            r = call(e)
        except D.Hang:
            raise
        except Exception as x:
            r = ans(type(x).__name__)
        ev.append({**e, 'r': r})
    return {'cfg': {}, 'ev': ev}


if __name__ == '__main__':
    D.main(run)
