#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import threading
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)
def main():
    from engine import report, registry
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    return registry.run(prop, tier)
if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    res = []
    def go():
        try:
            res.append(main())
        except SystemExit as e:
            res.append(e.code)
        except BaseException:
            import traceback; traceback.print_exc(); res.append(3)
    t = threading.Thread(target=go); t.start(); t.join()
    sys.stdout.flush()
    os._exit(res[0] if res and isinstance(res[0], int) else 3) if False else sys.exit(res[0] if res else 3)
