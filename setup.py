#!/usr/bin/env python3
"""Build the MIR driver."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
import dump
print(dump.driver())
