"""Common parts of the drivers that run the code under test.

A driver reads a list of jobs on stdin, executes each against the real code and
prints one trace per line.  It records; it does not judge.
"""
import json, logging, os, signal, sys, traceback, warnings
from fractions import Fraction

warnings.simplefilter('ignore')
REPO = os.environ.get('VERIF_REPO', '/repo')
SCRATCH = os.environ.get('VERIF_SCRATCH') or os.getcwd()
sys.path.insert(0, REPO)
logging.disable(logging.CRITICAL)
sys.setrecursionlimit(3000)


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def key(bs):
    return bytes(bs).decode('utf-8')


def unkey(s):
    """The specification's view of an id; anything odd becomes a marker."""
    if isinstance(s, str):
        try:
            return list(s.encode('utf-8'))
        except UnicodeEncodeError:
            return [999]
    return [998]


def dec(v):
    t, n = v['t'], v['n']
    if t == 'int':
        return n
    if t == 'none':
        return None
    if t == 'bool':
        return bool(n)
    if t == 'str':
        return '' if n == 0 else f's{n}'
    if t == 'float':
        return 0.0 if n == 0 else n + 0.5
    if t == 'list':
        return list(range(n))
    if t == 'dict':
        return {f'k{i}': i for i in range(n)}
    if t == 'bytes':
        return bytes(n)
    if t == 'tuple':
        return tuple(range(n))
    raise ValueError(t)


def enc(o):
    if o is None:
        return {'t': 'none', 'n': 0}
    if type(o) is bool:
        return {'t': 'bool', 'n': int(o)}
    if type(o) is int and abs(o) < 2**31:
        return {'t': 'int', 'n': o}
    if type(o) is str:
        if o == '':
            return {'t': 'str', 'n': 0}
        if o[0] == 's' and o[1:].isdigit():
            return {'t': 'str', 'n': int(o[1:])}
    if type(o) is float:
        if o == 0.0:
            return {'t': 'float', 'n': 0}
        if (o - 0.5) == int(o - 0.5):
            return {'t': 'float', 'n': int(o - 0.5)}
    if type(o) in (list, tuple) and list(o) == list(range(len(o))):
        return {'t': type(o).__name__, 'n': len(o)}
    if type(o) is dict and o == {f'k{i}': i for i in range(len(o))}:
        return {'t': 'dict', 'n': len(o)}
    if type(o) is bytes and o == bytes(len(o)):
        return {'t': 'bytes', 'n': len(o)}
    return {'t': '?' + type(o).__name__, 'n': 0}


def R(tag, keys=(), vals=(), num=0):
    return {'tag': tag, 'keys': list(keys), 'vals': list(vals), 'num': num}


def ratio(x, lim=20000):
    try:
        f = Fraction(x).limit_denominator(lim)
        return [f.numerator, f.denominator]
    except Exception:
        return [-1, 1]


def num(x):
    return x if type(x) is int and abs(x) < 2**31 else -12345


def error_tag(e, empty=False):
    name = type(e).__name__
    if name in ('GroupCapacityError', 'CollectionCapacityError'):
        return 'CapacityError'
    if empty and name in ('KeyError', 'ValueError'):
        return 'EmptyError'
    return name


def main(run, limit=20):
    jobs = json.load(sys.stdin)
    signal.signal(signal.SIGALRM, _alarm)
    # the code under test may print; traces go to the real stdout only
    real = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    hangs = 0
    for job in jobs:
        # again and again: cleaning up may hang as well
        signal.setitimer(signal.ITIMER_REAL, limit, 3)
        try:
            t = run(job)
            t['job'] = job
        except Hang:
            t = {'job': job, 'crash': True, 'cfg': {}, 'ev': [], 'hang': 1,
                 'why': 'hang: ' + traceback.format_exc()[-1500:]}
        except Exception:
            t = {'job': job, 'crash': True, 'cfg': {}, 'ev': [],
                 'why': traceback.format_exc()[-2500:]}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        real.write(json.dumps(t) + '\n')
        real.flush()
        hangs += t.get('hang', 0)
        if hangs > 1:
            # enough is known; the rest would take too long
            real.write(json.dumps({'stop': True}) + '\n')
            real.flush()
            os._exit(0)
