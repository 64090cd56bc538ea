#!/usr/bin/env python3
"""run cases written on the command line: try.py 'C("image","layout",(0,0,3,2))' ..."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import props, check
from props import C
cs = []
for a in sys.argv[1:]:
    x = eval(a)
    cs += x if isinstance(x, list) else [x]
props.prop("TRY", cs)
sys.argv = ["check.py", "TRY", "quick"]
sys.exit(check.main())
