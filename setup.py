#!/usr/bin/env python3
"""Builds the fact extractor (tool/extract.cpp) once."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import facts
print(facts.tool_path())
