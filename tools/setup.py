"""Builds everything the checks need (they also rebuild on demand from /repo's current tree)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from simcc.build import build
from lib.simrt import build_slimcc, build_rt
print(build()); print(build("asan")); print(build_slimcc()); print(build_rt())
