import importlib, os, sys
from . import core


def main():
    import argparse
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--replay')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    args = parser.parse_args()

    import logging
    logging.disable(logging.CRITICAL)

    import sangfroid, bywords
    for module in (sangfroid, bywords):
        where = os.path.realpath(os.path.dirname(module.__file__))
        if not where.startswith(core.REPO+os.sep):
            print(f'{module.__name__} came from {where}', file=sys.stderr)
            return 2

    importlib.import_module('sfmon.'+args.property.lower())
    try:
        return core.main(args.property, args.seed, args.tier, args.replay)
    finally:
        for fn in core.CLEANUP:
            fn()


if __name__=='__main__':
    status = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(status)
