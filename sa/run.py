#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, engine, checks


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    core.DEEP[0] = tier == 'thorough'
    r = engine.Run(pid, tier)
    try:
        with core.limited(core.MOST + 60):
            checks.CHECKS[pid](r)
        engine.without_assertions(r, checks.CHECKS[pid])
    except core.Undecided as e:
        r.undecided.append(str(e))
    except Exception as e:
        # a shape of code the rules have no reading for is no violation
        import traceback
        traceback.print_exc()
        r.undecided.append('internal error: %s' % repr(e)[:200])
    return r.finish()


if __name__ == '__main__':
    sys.exit(main())
