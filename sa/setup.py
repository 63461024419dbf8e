#!/usr/bin/env python3
"""Builds the analyser."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
try:
    print(core.driver()[0])
except core.Undecided as e:
    print(e)
    sys.exit(1)
