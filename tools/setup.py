#!/usr/bin/env python3
"""Warms the Go build cache and makes sure the toolchain works; every check builds what it needs itself."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib
c = vlib.Check('setup')
c.build_harness()
c.sh(['java', '-version'], what='java')
print('ok')
