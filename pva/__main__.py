"""python3 -m pva check <property> [--thorough]"""
import os
import sys


def main(argv):
    if len(argv) < 2 or argv[0] != 'check':
        print(__doc__)
        return 2
    thorough = '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough'
    from .report import Report
    from .rules import RULES
    prop = argv[1]
    import threading
    res = []

    def go():
        R = Report(prop, 'thorough' if thorough else 'quick')
        RULES[prop](R, thorough)
        res.append(R.finish())
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return res[0] if res else 2


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
