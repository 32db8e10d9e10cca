#!/usr/bin/env python3
"""check.py <property> [quick|thorough] - decide one property on /repo's current tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
import vlib
import props


def main():
    pid = sys.argv[1]
    c = vlib.Ctx(pid)
    known = vlib.known_findings().get(pid, {})
    try:
        props.CHECKS[pid](c, known)
        c.evidence(0)
        print(f'{pid}: ok  states={c.states} transitions={c.trans} traces={c.traces} steps={c.steps} ({c.tier}, seed {c.seed})')
        return 0
    except vlib.Violation as v:
        replay = v.replay
        if not replay:
            replay = os.path.join(vlib.OUT, f'{pid}-replay.txt')
            with open(replay, 'w') as f:
                f.write(v.what + '\n')
        c.evidence(1)
        print(v.what)
        print(f'VIOLATION property={pid} replay={replay}')
        return 1
    except vlib.CheckError as e:
        print(f'{pid}: ERROR (no verdict): {e}')
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
