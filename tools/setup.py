"""Compiles the Java operators TLC evaluates F64 with."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import tla
print(tla.java_classes())
