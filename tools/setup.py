#!/usr/bin/env python3
"""compiles the IR exporter and the prover; checks that /repo's sources can be exported"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
import build, native
native.lib()
build.ir("rel64")
print("ready")
