#!/usr/bin/env python3
"""check.py ID [quick|thorough] | check.py ID --replay FILE"""
import glob, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
import harness
if sys.argv[1] == '--setup':
    import build, jb
    build.ensure('plain')
    jb.Earley.prepare()
    sys.exit(0)
pid = sys.argv[1].lower()
ms = glob.glob(os.path.join(V, 'checks', pid + '_*.py'))
mod = os.path.basename(ms[0])[:-3]
if len(sys.argv) > 3 and sys.argv[2] == '--replay':
    sys.exit(harness.main(mod, replay=sys.argv[3]))
sys.exit(harness.main(mod, tier=sys.argv[2] if len(sys.argv) > 2 else None))
