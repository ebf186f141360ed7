#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current working tree.  See DESIGN.md."""
import sys, os, json, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import props, engine

if __name__ == '__main__':
    sys.exit(engine.run(sys.argv[1], props.PROPS[sys.argv[1]]))
