#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]   decide one property from /repo's current source.

exit 0: no violation (known findings are printed); exit 1: VIOLATION line(s); exit 2: the analysis is broken."""
import sys, os, importlib, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    from rules.ctx import Ctx
    ctx = Ctx(prop, tier)
    mod = importlib.import_module('rules.' + prop)
    code = ctx.main(mod)
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    rc = []

    def go():
        try:
            main()
        except SystemExit as e:
            rc.append(e.code)
        except BaseException:
            import traceback
            traceback.print_exc()
            rc.append(2)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 2)
