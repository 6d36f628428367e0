#!/usr/bin/env python3
"""Builds the fact extractor."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import facts
print(facts.build_tool())
