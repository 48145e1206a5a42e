#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]"""
import os, sys, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import vf


def main():
    pid = sys.argv[1]
    tier = 'thorough' if 'thorough' in sys.argv[2:] else 'quick'
    try:
        vf.ensure_tool()
        vf.prune_cache()
        import registry
        rc = registry.CHECKS[pid](pid, tier)
    except vf.AnalysisError as e:
        print('ANALYSIS-ERROR %s: %s' % (pid, e))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR %s' % pid)
        sys.exit(2)
    sys.exit(rc)


main()
