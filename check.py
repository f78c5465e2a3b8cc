#!/usr/bin/env python3
import os, sys, threading
if os.environ.get('PYTHONHASHSEED') != '0':
    # the same result on every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.setrecursionlimit(40000)
threading.stack_size(512 * 1024 * 1024)
rc = [3]


def go():
    from pq.frame import main
    try:
        rc[0] = main(sys.argv)
    except SystemExit as e:
        rc[0] = e.code if isinstance(e.code, int) else 3


t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
sys.stderr.flush()
os._exit(rc[0])
