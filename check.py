#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE]

Decide one property on the working tree in /repo.  Exit 0 if it held on
everything explored, 1 with a VIOLATION line otherwise.
"""
import argparse
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import env  # noqa: E402

if __name__ == '__main__':
    env.reexec()
    env.setup()
    parser = argparse.ArgumentParser()
    parser.add_argument('id')
    parser.add_argument('--tier', default='quick', choices=('quick', 'thorough'))
    parser.add_argument('--replay')
    args = parser.parse_args()
    from mc import run
    try:
        code = run.main(args.id, args.tier, args.replay)
    except Exception:
        traceback.print_exc()
        print(f'VIOLATION property={args.id} replay=-')
        code = 1
    sys.stdout.flush()
    sys.exit(code)
