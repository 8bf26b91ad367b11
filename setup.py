#!/usr/bin/env python3
"""Builds the numeric kernel and checks that the tools are there."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
for t in ('clang++-18', 'opt-18', 'g++'):
    if not shutil.which(t):
        sys.exit('missing ' + t)
from nsa import num
num._load()
print('setup ok')
