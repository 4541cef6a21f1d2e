#!/usr/bin/env python3-vt
import os, sys
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyvc import runner
sys.exit(runner.main(sys.argv[1:]))
