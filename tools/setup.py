#!/usr/bin/env python3
"""Builds the framework from the committed files: the TLC overrides (checks build the rest from /repo themselves)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import xk
print("classes:", xk.java_classes())
