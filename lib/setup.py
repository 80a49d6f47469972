"""Builds the fact extractor (checks also build it on demand)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
print(facts.ensure_tool()[0])
