"""Properties that depend on contexts."""
import copy
import drvlib as D
from jsonld.base import (ContextualProperty, PropertyAwareObject,
                         contextualproperty)


class Failure(Exception):
    pass


def ans(tag='ok', h=0, v=(0, 0)):
    return {'tag': tag, 'h': h, 'v': list(v)}


def store(o):
    return list(o.__dict__.get('kept', (0, 0)))


def getter(h):
    def fn(self):
        """what it is"""
        if h >= 90:
            raise Failure()
        return (h, store(self))
    return fn if h else None


def setter(h):
    def fn(self, v):
        if h >= 90:
            raise Failure()
        self.__dict__['kept'] = (h, v)
    return fn if h else None


def deleter(h):
    def fn(self):
        if h >= 90:
            raise Failure()
        self.__dict__['kept'] = (h, -1)
    return fn if h else None


# contexts need not be text, nor true
CTX = {'': None, 'zero': 0, 'empty': '', 'nothing': (), 'pair': ('p', 1)}
FN = {'get': getter, 'set': setter, 'del': deleter}


def run(job):
    class Aware(PropertyAwareObject):
        pass

    class Child(Aware):
        pass

    class Plain:
        pass

    kinds = job['cfg'].get('kinds') or ['aware', 'child', 'aware']
    objs = [{'aware': Aware, 'child': Child, 'plain': Plain}[k]()
            for k in kinds[:job['cfg']['objs']]]
    # the block a context was opened for, innermost last
    blocks = [[] for _ in objs]
    props, ev = [], []

    def publish():
        for c in (Aware, Plain):
            for n, p in enumerate(props):
                setattr(c, f'p{n + 1}', p)

    def step(e):
        op = e['op']
        if op == 'new':
            if e.get('via') == 'decorator' and e['g']:
                p = contextualproperty(getter(e['g']))
                if e['s']:
                    p = p.setter(setter(e['s']))
                if e['d']:
                    p = p.deleter(deleter(e['d']))
            else:
                p = ContextualProperty(getter(e['g']), setter(e['s']),
                                       deleter(e['d']))
            props.append(p)
            publish()
            return ans()
        if op == 'derive':
            p = props[e['p'] - 1]
            props.append(copy.copy(p) if e['kind'] == 'copy' else
                         {'get': p.getter, 'set': p.setter,
                          'del': p.deleter}[e['kind']](FN[e['kind']](e['h'])))
            publish()
            return ans()
        if op == 'extend':
            p = props[e['p'] - 1]
            got = {'get': p.getter_context, 'set': p.setter_context,
                   'del': p.deleter_context}[e['kind']](CTX.get(e['c'], e['c']))(
                       FN[e['kind']](e['h']))
            # the decorated name becomes what the decorator returns
            props[e['p'] - 1] = got
            publish()
            return ans()
        o = objs[e['o'] - 1]
        if op == 'open':
            m = o.switch_context(CTX.get(e['c'], e['c']))
            m.__enter__()
            blocks[e['o'] - 1].append(m)
            return ans()
        if op == 'close':
            m = blocks[e['o'] - 1].pop()
            if e.get('raise'):
                x = Failure()
                swallowed = m.__exit__(Failure, x, None)
            else:
                swallowed = m.__exit__(None, None, None)
            return ans('swallowed') if swallowed and e.get('raise') else ans()
        name = f'p{e["p"]}'
        try:
            if op == 'get':
                h, v = getattr(o, name)
                return ans('val', h, v)
            if op == 'set':
                setattr(o, name, e['v'])
            if op == 'del':
                delattr(o, name)
            return ans()
        except (AttributeError, Failure) as x:
            return ans(type(x).__name__)

    for e in job['ops']:
        if e['op'] in ('open', 'close') and kinds[e['o'] - 1] == 'plain':
            continue
        if e['op'] == 'close' and not blocks[e['o'] - 1]:
            continue
        r = step(e)
        ev.append({**e, 'r': r, 'store': [store(o) for o in objs]})
    return {'cfg': {'objs': len(objs)}, 'ev': ev}


if __name__ == '__main__':
    D.main(run)
