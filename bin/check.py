#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]   decides one property from /repo's current source."""
import json
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
sys.path.insert(0, os.path.join(ROOT, 'engine', 'rules'))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

import framework  # noqa: E402


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    return framework.run(pid, tier if tier in ('quick', 'thorough') else 'quick')


if __name__ == '__main__':
    import threading
    threading.stack_size(512 << 20)
    box = []
    t = threading.Thread(target=lambda: box.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(box[0] if box else 2)
