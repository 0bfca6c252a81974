#!/usr/bin/env python3
"""Prebuilds the library variants, the driver and the TLC module override."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core
core.java_classes()
for v in core.VARIANTS: core.build(v)
print("built", len(core.VARIANTS), "variants")
