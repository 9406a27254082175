"""Packages, engines, and the classes in them."""
import drvlib as D
from jsonld import (ApplicationActivityJson, JsonLdEngine, JsonLdPackage,
                    JsonProperty, contextualproperty)


def make_class(c, classes):
    def init(self, **kw):
        ApplicationActivityJson.__init__(self, acontext='ctx')
        for k, v in kw.items():
            # an engine also passes on what describes the class
            if k != 'acontext' and not k.startswith('__'):
                setattr(self, k, v)

    body = {'__init__': init, '__get_namespace__': classmethod(
                lambda cls: c['ns']), '__module__': 'world',
            'echo': lambda self, x: x}
    if c['says']:
        body['who'] = c['py']
    for n in c['native']:
        body[n] = make_property(n)
    bases = tuple(classes[p - 1] for p in c['parents']) or (
        ApplicationActivityJson,)
    return type(c['py'], bases, body)


def make_property(name):
    slot = f'___{name}___'

    def get(self):
        return getattr(self, slot, None)

    def put(self, v):
        setattr(self, slot, v)
    get.__name__ = put.__name__ = name
    return contextualproperty(get).setter(put)


def make_prop_class(p):
    return type('P_' + p['name'], (JsonProperty,), {
        p['name']: make_property(p['name']),
        '__get_namespace__': classmethod(lambda cls: p['ns'])})


class World:
    def __init__(self, cfg):
        self.cfg = cfg
        self.classes = []
        for c in cfg['classes']:
            self.classes.append(make_class(c, self.classes))
        self.props = [make_prop_class(p) for p in cfg['props']]
        self.names = sorted({n for c in cfg['classes'] for n in c['native']}
                            | {p['name'] for p in cfg['props']})
        self.pkgs, self.base, self.engs = [], [], []

    def names_of(self, cls):
        """The names that are properties of the objects of a class."""
        o = cls()
        for j, n in enumerate(self.names):
            setattr(o, n, j + 1)
        d = o.data()
        d.pop('@context', None)
        ok = all(d[n] == self.names.index(n) + 1 for n in d
                 if n in self.names)
        return o.__namespace__, sorted(d) if ok else ['?']

    def objs(self, classes):
        """``classes`` by the namespace they are found under."""
        res = []
        for ns, cls in classes.items():
            real, names = self.names_of(cls)
            res.append({'ns': ns if real == ns else '?', 'names': names,
                        'py': cls.__name__, 'who': getattr(cls, 'who', ''),
                        'anc': [m for m, other in classes.items()
                                if issubclass(cls, other)]})
        return res

    def observe(self):
        res = {'classes': [], 'pkgs': [], 'engs': []}
        for c in self.classes:
            ns, names = self.names_of(c)
            res['classes'].append({'ns': ns, 'names': names,
                                   'who': getattr(c, 'who', '')})
        for p in self.pkgs:
            found = {c.__get_namespace__(): c for c in p.objects}
            o = self.objs(found)
            if len(found) != len(p.objects) or any(
                    p[n] is not c for n, c in found.items()):
                o = []
            res['pkgs'].append({'ns': p.namespace, 'objs': o, 'props': [
                x.__get_namespace__() for x in p.properties]})
        for e in self.engs:
            # an engine offers its classes under their names
            found = {}
            for py in sorted({c['py'] for c in self.cfg['classes']}):
                cls = getattr(e, py, None)
                if cls is not None:
                    found[cls.__get_namespace__()] = cls
            res['engs'].append(self.objs(found))
        return res


def step(w, e):
    op = e['op']
    ok = {'tag': 'ok'}
    if op == 'package':
        kw = {}
        if e['map'] or not e.get('bare'):
            kw['property_mapping'] = {m['ns']: tuple(m['to'])
                                      for m in e['map']}
        if e['ps'] or not e.get('bare'):
            kw['properties'] = tuple(w.props[j - 1] for j in e['ps'])
        p = JsonLdPackage(e['ns'], tuple(w.classes[j - 1] for j in e['cs']),
                          **kw)
        w.pkgs.append(p)
        w.base.append(True)
        return ok
    if op in ('add', 'subtract'):
        p, q = w.pkgs[e['p'] - 1], w.pkgs[e['q'] - 1]
        w.pkgs.append(p + q if op == 'add' else p - q)
        w.base.append(False)
        return ok
    if op == 'engine':
        ps = [w.pkgs[j - 1] for j in e['ps']]
        how = e.get('as', 'list')
        w.engs.append(JsonLdEngine(
            ps[0] if how == 'one' and len(ps) == 1 else
            tuple(ps) if how == 'tuple' else
            (x for x in ps) if how == 'iter' else ps))
        return ok
    if op in ('addpackage', 'addengine', 'droppackage', 'dropengine'):
        a = w.engs[e['e'] - 1]
        b = w.pkgs[e['p'] - 1] if 'package' in op else w.engs[e['f'] - 1]
        w.engs.append(a + b if op.startswith('add') else a - b)
        return ok
    if op == 'refuse':
        what = e['what']
        x = [1, 'text', None, []][e['n'] % 4]
        if what == 'rename':
            w.pkgs[e['p'] - 1].namespace = 'https://other.example'
        if what == 'namespace':
            JsonLdPackage([1, None, b'x', []][e['n'] % 4], ())
        if what in ('objects', 'properties'):
            p = w.pkgs[e['p'] - 1]
            if not getattr(p, what):
                # a package without any may be given some
                raise AttributeError(what)
            setattr(p, what, (getattr(p, what)[:1], ())[e['n'] % 2])
        if what == 'again':
            a = w.engs[e['e'] - 1]
            if not a.class_registry:
                raise ValueError('there are no classes')
            ns, cls = next(iter(a.class_registry.items()))
            a.register_class(ns, cls)
        if what == 'index':
            w.engs[e['e'] - 1][[5, ['{}', 5], None, (b'{}',)][e['n'] % 4]]
        if what == 'nothing':
            JsonLdEngine(((), [])[e['n'] % 2])
        if what == 'pkgadd':
            w.pkgs[e['p'] - 1] + x
        if what == 'pkgsub':
            w.pkgs[e['p'] - 1] - x
        if what == 'engadd':
            w.engs[e['e'] - 1] + x
        if what == 'engsub':
            w.engs[e['e'] - 1] - x
        if what == 'lookup':
            w.pkgs[e['p'] - 1][[w.cfg['classes'][0]['ns'], 5]]
        return ok
    if op == 'lookup':
        p = w.pkgs[e['p'] - 1]
        got = ([p[e['nss'][0]]] if e.get('single') and len(e['nss']) == 1
               else p[list(e['nss'])])
        return {'tag': 'got', 'py': [
            'none' if g is None else
            'prop' if issubclass(g, JsonProperty) else g.__name__
            for g in got]}
    if op == 'adopt':
        p = w.pkgs[e['p'] - 1]
        cls = w.classes[e['c'] - 1]
        o = cls()
        for j, n in enumerate(w.names):
            setattr(o, n, 50 + j)
        owner = p.objects[e.get('n', 0) % len(p.objects)]()
        names = [n for n in w.names_of(p.objects[e.get('n', 0)
                                                 % len(p.objects)])[1]]
        via = e.get('via', 'method')
        if via == 'method' or not names:
            got = owner.echo(o)
        else:
            n = names[e.get('n', 0) % len(names)]
            setattr(owner, n, o)
            got = getattr(owner, n)
        mine = p[cls.__get_namespace__()]
        d = got.data()
        d.pop('@context', None)
        good = got is o and all(
            d[n] == 50 + w.names.index(n) for n in d if n in w.names)
        return {'tag': 'odd' if not good else
                'package' if type(got) is mine else
                'same' if type(got) is cls else 'odd', 'names': sorted(d)}
    if op == 'read':
        d = {'@context': {'x': 'https://x.example/'}, '@type': e['ns']}
        o = w.engs[e['e'] - 1].from_json(d)
        cls = type(o)
        return {'tag': 'obj', 'py': cls.__name__ if getattr(
            w.engs[e['e'] - 1], cls.__name__, None) is cls else '?'}
    raise SystemExit(op)


def run(job):
    w = World(job['cfg'])
    ev = []
    for e in job['ops']:
        e = dict(e)
        # what earlier steps did not produce
        if any(e.get(f, 0) > len(l) for f, l in (
                ('p', w.pkgs), ('q', w.pkgs), ('e', w.engs), ('f', w.engs))
               if isinstance(e.get(f, 0), int)):
            continue
        if e['op'] == 'engine' and any(j > len(w.pkgs) for j in e['ps']):
            continue
        if e['op'] == 'adopt' and not (w.base[e['p'] - 1]
                                       and w.pkgs[e['p'] - 1].objects):
            continue
        try:
            r = step(w, e)
        except D.Hang:
            raise
        except (AttributeError, TypeError, ValueError, KeyError) as x:
            r = {'tag': type(x).__name__}
        ev.append({**e, 'r': r, **w.observe()})
    return {'cfg': {'classes': [{k: c[k] for k in (
        'ns', 'py', 'up', 'order', 'says', 'native')}
                                for c in job['cfg']['classes']],
                    'props': job['cfg']['props']}, 'ev': ev}


if __name__ == '__main__':
    D.main(run)
