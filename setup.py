#!/usr/bin/env python3
"""Build the two analysers (every check builds them on demand as well)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core
core.build_tool("irtool")
core.build_tool("absint")
