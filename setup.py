#!/usr/bin/env python3
"""Warms the Go build cache: builds every check binary and command once (offline)."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
scratch = tempfile.mkdtemp(prefix="verif-setup-")
try:
    conf = check.load_conf()
    for prop, c in conf.items():
        if c.get("not_applicable"):
            continue
        d = os.path.join(scratch, prop)
        os.makedirs(d)
        check.build(prop, c, d)
        print("built", prop)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
