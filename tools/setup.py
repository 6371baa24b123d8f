"""Builds the runtime and type-checks the specifications' toolchain (offline)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
print(vlib.build_rt())
