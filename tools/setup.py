#!/usr/bin/env python3
"""Compiles the arithmetic overrides and runs their tests in TLC."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
sys.dont_write_bytecode = True
import tlc
r = tlc.run("HPRealTest")
if not r.ok:
    print(r.output[-3000:])
    sys.exit(1)
print("setup ok")
