#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's working tree.  Exit 0 held, 1 violated, 2 no answer."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import registry  # noqa: E402
import tools  # noqa: E402


def main():
    pid = sys.argv[1]
    res = tools.Result(pid)
    try:
        with tools.Scratch() as scratch:
            for step in registry.STEPS[pid]:
                step(pid, res, scratch)
        return res.finish()
    except tools.ToolError as e:
        print('NO ANSWER: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
