#!/usr/bin/env python3
"""check.py ID  -  decides one property of seatd by observing executions.

Environment: VERIF_TIER=quick|thorough, VERIF_SEED=n (every random choice
derives from it).  Exit 0: held on everything explored; 1: VIOLATION line
printed; 2: the machinery itself failed."""
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import engine
sys.exit(engine.main(sys.argv[1:]))
