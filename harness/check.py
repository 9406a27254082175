#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property."""
import importlib, os, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

WHERE = {}
for mod, ids in {
        'c_group': 'C02 C03 C04 C05',
        'c_container': 'C01 C06 C07 C08 C09',
        'c_life': 'C15',
        'c_read': 'C16',
        'c_maint': 'C27',
        'c_loader': 'C24',
        'c_client': 'C28',
        'c_cluster': 'C26',
        'c_ctx': 'C18',
        'c_package': 'C19',
        'c_json': 'C20',
        'c_as': 'C21 C22 C23',
        'c_txn': 'C10 C11 C12 C13 C14 C17',
}.items():
    for i in ids.split():
        WHERE[i] = mod


def main():
    args = sys.argv[1:]
    if '--tier' in args:
        i = args.index('--tier')
        os.environ['VERIF_TIER'] = args[i + 1]
        del args[i:i + 2]
    import core
    prop = args[0]
    rep = core.Report(prop)
    mod = importlib.import_module(WHERE[prop])
    try:
        with core.Work() as work:
            getattr(mod, prop)(rep, work)
    except core.CheckError as e:
        print(f'CHECK-ERROR property={prop} {e}')
        return 2
    return rep.finish()


if __name__ == '__main__':
    sys.exit(main())
