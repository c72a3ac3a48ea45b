#!/usr/bin/env python3
"""check.py <property> [--replay FILE --profile P]: decides one property for the code in /repo."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core, props


def main():
    prop = sys.argv[1]
    try:
        run = core.Run(prop)
        if '--replay' in sys.argv:
            f = sys.argv[sys.argv.index('--replay') + 1]
            pr = sys.argv[sys.argv.index('--profile') + 1] if '--profile' in sys.argv else 'chk'
            run.execute([[l.rstrip('\n') for l in open(f) if not l.startswith('#')]], profile=pr)
            return run.finish()
        props.CHECKS[prop](run)
        return run.finish()
    except core.ToolError as e:
        print('ERROR: %s' % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
