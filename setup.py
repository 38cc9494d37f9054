#!/usr/bin/python3
"""Builds the source extractor (clang AST to JSON) from extract/fdextract.cpp."""
import os, sys
os.environ['PATH'] = '/usr/local/bin:/usr/bin:/bin'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from fdstat import build
print(build.extractor())
