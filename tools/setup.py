#!/usr/bin/env python3
"""Compile the Java overrides and have TLC compare each with its TLA+ definition.  (The checks build what they need
from /repo themselves, content-addressed in build/.)"""
import os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core
from gen import models
core.build_java()
wd = tempfile.mkdtemp(prefix="setup-")
try:
    print("ok: overrides agree with their definitions at %d points" % models.overrides(wd))
finally:
    shutil.rmtree(wd, ignore_errors=True)
