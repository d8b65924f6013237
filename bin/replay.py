#!/usr/bin/env python3
"""Runs one counterexample file against the real code: replay.py <harness> <file>"""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
os.environ["ASAN_OPTIONS"] = "detect_leaks=0:" + os.environ.get("ASAN_OPTIONS", "")
sys.exit(subprocess.call([build.replayer(sys.argv[1]), sys.argv[2]]))
