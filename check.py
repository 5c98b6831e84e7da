#!/usr/bin/env python3
"""check.py <property> [--quick|--thorough]: decide one property."""
import os
import sys
import threading
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.framework import main, timed_out      # noqa: E402

if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main(sys.argv[1:])))
    t.daemon = True
    t.start()
    t.join(float(os.environ.get('VERIF_TIMEOUT', '780')))
    if not rc:
        rc.append(timed_out(sys.argv[1:]))
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
