#!/usr/bin/env python3
"""Builds what the checks build (driver and operators) once, in scratch, to see that the toolchain is there."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
env = vf.Env()
env.build()
env.build_java()
print("ready")
