"""Builds the extractor and runs the engine's self-test."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
print("extractor:", gen.extractor())
