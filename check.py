#!/usr/bin/env python3
"""usage: check.py <property id>"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf
sys.exit(vf.main(sys.argv[1]))
