#!/usr/bin/env python3
"""Builds the monitors once, so that a broken build environment shows early."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import checks, vlib
os.makedirs(vlib.TARGET, exist_ok=True)
vlib.build_all({**checks.BUILDS, **checks.OTHERS})
print("monitors are built")
