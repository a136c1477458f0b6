#!/usr/bin/env python3
"""Builds the symbolic executor."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxbuild
print(sxbuild.engine())
