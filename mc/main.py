"""check PROPERTY | check --replay FILE | check --all"""
import importlib
import json
import os
import pickle
import pkgutil
import sys

import mc.core as core
import mc.checks


def registry():
    res = {}
    for m in pkgutil.iter_modules(mc.checks.__path__):
        mod = importlib.import_module('mc.checks.' + m.name)
        for x in vars(mod).values():
            if isinstance(x, type) and issubclass(x, core.Check) and x.prop and x.__module__ == mod.__name__:
                res[x.prop] = x
    return res


def main(argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        argv.remove('--thorough')
        tier = 'thorough'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    reg = registry()
    if argv and argv[0] == '--replay':
        with open(argv[1]) as f:
            d = json.load(f)
        check = reg[d['property']](d['tier'], seed)
        try:
            check.setup()
            msg = check.decide(pickle.loads(bytes.fromhex(d['pickle'])), core.Rec())
            check.finish()
        except Exception as e:
            if not core.from_repo(e):
                raise
            msg = repr(e)
        if msg is None:
            print('the property holds for this case')
            return 0
        print('what: %s' % msg)
        print('VIOLATION property=%s replay=%s' % (d['property'], argv[1]))
        return 1
    if argv and argv[0] == '--list':
        print('\n'.join(sorted(reg)))
        return 0
    if argv and argv[0] == '--all':
        worst = 0
        for p in (argv[1:] or sorted(reg)):
            worst = max(worst, os.system('%s/check %s %s' % (core.VERIF, p, '--thorough' if tier == 'thorough' else ''))
                        >> 8)
        return worst
    return core.run(reg[argv[0]](tier, seed))


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
