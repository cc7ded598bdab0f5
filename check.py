#!/usr/bin/env python3
"check.py PROPERTY [quick|thorough]: runs one property's check against /repo's working tree"
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import common
sys.exit(common.main(sys.argv))
