"""Groups of database modules, in a scratch directory.

Everything that deletes or creates files is kept inside the scratch directory:
the calls the code makes refuse any other path, and the process gives up its
privileges.
"""
import builtins, os, shutil, sys, tempfile
import drvlib as D

BASE = tempfile.mkdtemp(dir=D.SCRATCH)


def inside(path):
    p = os.path.realpath(os.path.dirname(os.path.abspath(os.fspath(path))))
    return p == os.path.realpath(BASE) or p.startswith(os.path.realpath(BASE) + os.sep)


class Escape(Exception):
    pass


def keep(mod, name):
    real = getattr(mod, name)

    def call(path, *a, **kw):
        if not inside(path):
            raise Escape(f'{name} {path}')
        return real(path, *a, **kw)
    setattr(mod, name, call)
    return real


# rmtree itself works below the directory it was given
rmtree = keep(shutil, 'rmtree')
for n in ('mkdir', 'makedirs', 'rmdir', 'remove', 'rename', 'replace', 'removedirs'):
    keep(os, n)
_unlink = os.unlink

import transaction
from persistent.mapping import PersistentMapping
from citrine.cluster_tools.dbmodule import dbgroup, dbmodule
from citrine.cluster_tools.clusterdb.container import ClusterRegistryContainer
from citrine.storage.transaction import TransactionManager

for d in (D.SCRATCH, os.path.dirname(D.SCRATCH)):
    try:
        os.chmod(d, 0o755)
    except OSError:
        pass
try:
    os.chown(BASE, 65534, 65534)
    os.setgid(65534)
    os.setuid(65534)
except OSError:
    pass
os.umask(0o022)

OTHER = ['x = 1\n', 'DB_MODULE = False\n', 'raise ValueError("no")\n',
         'def (:\n', 'import no_such_module_at_all\n', 'DB_MODULE = 0\n', '']
POOL = ['k', 'k2', 'http://a.example/1', 'ü']


class World:
    def __init__(self, cfg):
        self.cfg = cfg
        self.dir = tempfile.mkdtemp(dir=BASE)
        self.root = os.path.join(self.dir, 'root')
        os.mkdir(self.root)
        for p in ('root/notes.txt', 'outside.txt', 'root/__init__.py'):
            with open(os.path.join(self.dir, p), 'w') as w:
                w.write('keep')
        os.mkdir(os.path.join(self.dir, 'other'))
        dbmodule.DbModule.create(os.path.join(self.dir, 'other'), 'far').db.close()
        os.chdir(self.dir)
        self.said = {'abs': self.root, 'slash': self.root + '/',
                     'rel': 'root', 'dot': './root', 'here': '.'}[cfg['root']]
        if cfg['root'] == 'here':
            os.chdir(self.root)
        self.cwd = os.getcwd()
        sys.dont_write_bytecode = not cfg['compile']
        sys.pycache_prefix = None
        self.group, self.stale, self.old = None, set(), []
        self.files = {}
        given = {'none': None, 'dict': {}, 'map': PersistentMapping()}[cfg['reg']]
        self.regmap = given
        self.reg = (ClusterRegistryContainer() if given is None
                    else ClusterRegistryContainer(given))

    def path(self, n, how='join'):
        p = os.path.join(self.said, n)
        if how == 'in' and os.path.isdir(p):
            os.chdir(p)
            return '.'
        return {'join': p, 'slash': p + '/', 'dot': os.path.join(self.said, '.', n),
                'end': os.path.join(p, '.'), 'up': os.path.join(p, '..', n), 'in': p,
                'abs': os.path.join(self.root, n)}[how]

    def dirs(self):
        res = []
        for n in sorted(os.listdir(self.root)):
            p = os.path.join(self.root, n)
            if not os.path.isdir(p) or n == '__pycache__':
                continue
            own = {n, '__init__.py'} | {n + x for x in (
                '.index', '.lock', '.tmp', '.old', '.index.index_tmp')}
            names = sorted(os.listdir(p))
            init = 'none'
            if '__init__.py' in names:
                with open(os.path.join(p, '__init__.py')) as r:
                    init = 'module' if 'DB_MODULE = True' in r.read() else 'other'
            foreign = sorted(f for f in names if (n, f) in self.files)
            wrong = [f for f in names if f not in foreign and f not in own
                     and f != '__pycache__']
            if init == 'none':
                # nothing of a module is left
                wrong += [f for f in names if f in own or f == '__pycache__']
            res.append({'name': n, 'init': init, 'foreign': foreign,
                        'db': n in names and (n, n) not in self.files,
                        'wrong': sorted(set(wrong))})
        return res

    def calm(self):
        def text(*p):
            try:
                with open(os.path.join(*p)) as r:
                    return r.read()
            except IsADirectoryError:
                return None
            except OSError:
                return ''
        plain = {f for f in os.listdir(self.root)
                 if not os.path.isdir(os.path.join(self.root, f))}
        return (text(self.dir, 'root/notes.txt') == 'keep'
                and text(self.dir, 'root/__init__.py') == 'keep'
                and text(self.dir, 'outside.txt') == 'keep'
                and sorted(os.listdir(self.dir)) == ['other', 'outside.txt', 'root']
                and os.listdir(os.path.join(self.dir, 'other')) == ['far']
                and plain == {'notes.txt', '__init__.py'}
                and os.getcwd() == self.cwd
                and all(text(self.root, n, f) == v for (n, f), v in self.files.items()
                        if os.path.exists(os.path.join(self.root, n, f))))

    def shut(self, m):
        try:
            m.db.close()
        except Exception:
            pass

    def close(self):
        for m in self.old + list(self.group.modules.values() if self.group else []):
            self.shut(m)
        os.chdir(BASE)
        rmtree(self.dir, ignore_errors=True)


def session(w, n, e):
    how = e.get('how', 'open')
    m = w.group.modules[n]
    tm = TransactionManager()
    if how == 'open':
        return m.open(transaction_manager=tm)
    if how == 'db':
        return m.db.open(transaction_manager=tm)
    if how == 'call':
        return m().open(transaction_manager=tm)
    return w.group.databases[n].open(transaction_manager=tm)


def call(w, e):
    op, n = e['op'], e.get('n')
    g = w.group
    if op == 'open':
        args = {} if e['d'] else {'discovery': False}
        if w.said != '.' or e.get('say'):
            args['root'] = w.said
        if e['far']:
            args['modules'] = {'far': dbmodule.DbModule(os.path.join(w.dir, 'other', 'far'))}
        w.group = dbgroup.DbGroup(**args)
        return {'tag': 'ok'}
    if op == 'openwith':
        given = {x: dbmodule.DbModule(w.path(x)) for x in e['ns']}
        w.group = dbgroup.DbGroup(w.said, discovery=False, modules=given)
        return {'tag': 'ok'}
    if op == 'close':
        for m in list(g.modules.values()):
            if m not in w.old:
                w.shut(m)
        w.group, w.stale = None, set()
        return {'tag': 'ok'}
    if op in ('create', 'createany'):
        old = g.modules.get(n)
        if old is not None and e.get('over'):
            w.old.append(old)
            if e.get('shut'):
                w.shut(old)
        if op == 'createany':
            args = {}
        else:
            args = {'name': n}
        if e.get('over'):
            args['overwrite'] = True
        m = g.create_dbmodule(**args)
        w.stale.discard(m.name)
        if g.modules.get(m.name) is not m:
            return {'tag': 'another module'}
        return {'tag': 'module', 'name': m.name}
    if op == 'destroy':
        old = g.modules.get(n)
        # closed before, or left open, as the caller likes
        if old is not None and os.path.isdir(w.path(n)):
            w.old.append(old)
            if e.get('shut'):
                w.shut(old)
        g.destroy_dbmodule(n)
        w.stale.discard(n)
        return {'tag': 'ok'}
    if op == 'destroypath':
        p = w.path(n, e.get('spell', 'join'))
        if g is not None and n in g.modules and os.path.isdir(p):
            w.old.append(g.modules[n])
            w.stale.add(n)
        dbmodule.DbModule.destroy(p, remove_empty=e['empty'], remove=e['all'])
        return {'tag': 'ok'}
    if op == 'direct':
        p = w.path(n, e.get('spell', 'join'))
        m = dbmodule.DbModule(p) if p != '.' else dbmodule.DbModule()
        m.db.close()
        return {'tag': 'module', 'name': m.name}
    if op == 'names':
        names = list(g.modules) if g else []
        if g and sorted(g.databases) != sorted(names):
            return {'tag': 'databases without modules'}
        return {'tag': 'names', 'names': names}
    if op == 'discover':
        return {'tag': 'names', 'names': [os.path.split(p)[1] for p in
                                          dbmodule.find_dbmodules(w.said)]}
    if op == 'mkdir':
        p = os.path.join(w.root, n)
        os.mkdir(p)
        if e['init'] == 'other':
            with open(os.path.join(p, '__init__.py'), 'w') as f:
                f.write(OTHER[e.get('text', 0) % len(OTHER)])
        return {'tag': 'ok'}
    if op == 'putfile':
        w.files[n, e['f']] = 'mine ' + e['f']
        p = os.path.join(w.root, n, e['f'])
        if e['dir'] or os.path.isdir(p):
            if os.path.isfile(p):
                os.remove(p)
            os.makedirs(p, exist_ok=True)
            w.files[n, e['f']] = None
            return {'tag': 'ok'}
        with open(os.path.join(w.root, n, e['f']), 'w') as f:
            f.write('mine ' + e['f'])
        return {'tag': 'ok'}
    if op in ('write', 'remove', 'look'):
        c = session(w, n, e)
        try:
            if op == 'write':
                c.update(e['k'], e['v'])
                return {'tag': 'ok'}
            if op == 'remove':
                if c.read(e['k']) is None:
                    return None
                c.delete(e['k'])
                return {'tag': 'ok'}
            got = [[k, c.read(k)] for k in POOL]
            return {'tag': 'objects', 'map': [x for x in got if x[1] is not None]}
        finally:
            c.transaction_manager.abort()
            c.close()
    if op == 'size':
        return {'tag': 'size', 'n': g.modules[n].size}
    if op == 'total':
        return {'tag': 'size', 'n': g.size if g else 0}
    if op == 'move':
        g.modules[n].path = w.root
        return {'tag': 'ok'}
    if op == 'note':
        w.reg.write(n, g.modules[n])
        return {'tag': 'ok'}
    if op == 'noted':
        r = w.reg.read(n)
        if w.reg.has(n) != (r is not None):
            return {'tag': 'has'}
        if r is None:
            return {'tag': 'none'}
        if os.path.abspath(r.path) != os.path.join(
                w.dir, 'other' if r.name == 'far' else 'root', r.name):
            return {'tag': 'path'}
        return {'tag': 'noted', 'name': r.name}
    if op == 'forget':
        w.reg.delete(n)
        return {'tag': 'ok'}
    if op == 'known':
        return {'tag': 'names', 'names': list(
            w.regmap if w.regmap is not None else w.reg.modules)}
    raise SystemExit(op)


def allowed(w, e, dirs):
    """Operations whose outcome is not specified are left out."""
    op, n = e['op'], e.get('n')
    kinds = {d['name']: d['init'] for d in dirs}
    has = w.group is not None
    live = has and n in w.group.modules and n not in w.stale
    if op in ('open', 'openwith') and has:
        return False
    if op == 'openwith':
        return all(kinds.get(x) == 'module' for x in e['ns'])
    if op in ('close', 'create', 'createany', 'destroy') and not has:
        return False
    if op in ('destroy', 'destroypath') and kinds.get(n) == 'other':
        return False
    if op == 'direct':
        return kinds.get(n) != 'other' and not (has and n in w.group.modules)
    if op == 'mkdir':
        return n not in kinds
    if op == 'putfile':
        return n in kinds
    if op in ('write', 'remove', 'look', 'size', 'move', 'note'):
        return live
    if op == 'total':
        return not w.stale
    return True


def run(job):
    w = World(job['cfg'])
    ev = []
    try:
        for e in job['ops']:
            e = dict(e)
            if not allowed(w, e, w.dirs()):
                continue
            try:
                try:
                    e['r'] = call(w, e)
                finally:
                    if e.get('spell') == 'in':
                        os.chdir(w.cwd)
            except D.Hang:
                raise
            except Exception as x:
                e['r'] = {'tag': 'OSError' if type(x) is OSError else type(x).__name__}
                if isinstance(x, Escape):
                    e['r']['what'] = str(x)
            if e['r'] is None:
                continue
            e['dirs'] = w.dirs()
            e['calm'] = w.calm()
            ev.append(e)
    finally:
        w.close()
    return {'cfg': {}, 'ev': ev}


if __name__ == '__main__':
    D.main(run, 40)
