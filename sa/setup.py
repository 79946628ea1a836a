"""Builds the MIR driver and extracts the facts once (checks do it themselves if needed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract
print(extract.extract())
