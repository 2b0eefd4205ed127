#!/usr/bin/env python3
"""Builds the harness once, in both profiles."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import flv
flv.build(None)
flv.build(None, True)
print("ready")
