#!/usr/bin/env python3
"""Builds what the checks need (they build again from /repo's current tree)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from common import *
build_harness()
build_clib()
log("ready")
