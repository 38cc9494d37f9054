#!/usr/bin/python3
"""check.py <property> [--thorough]: decides one property for the current /repo tree"""
import os, sys
os.environ['PATH'] = '/usr/local/bin:/usr/bin:/bin'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from fdstat.runner import main
sys.exit(main(sys.argv))
