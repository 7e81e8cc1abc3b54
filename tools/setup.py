#!/usr/bin/env python3
"""Builds the harness once so that the build cache is warm."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib.util
spec = importlib.util.spec_from_file_location("check", os.path.join(os.path.dirname(os.path.abspath(__file__)), "check.py"))
c = importlib.util.module_from_spec(spec)
spec.loader.exec_module(c)
os.makedirs(os.path.join(c.VERIF, "evidence"), exist_ok=True)
tmp = tempfile.mkdtemp(prefix="verif-setup-")
try:
    c.build(tmp)
finally:
    shutil.rmtree(tmp)
