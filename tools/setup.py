#!/usr/bin/env python3
"""Checks that the tools the checks need are present (each check builds what it needs from /repo)."""
import os, shutil, sys
for t in ('clang++', 'python3'):
    if not shutil.which(t): sys.exit('missing ' + t)
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('build', 'evidence'): os.makedirs(os.path.join(root, d), exist_ok=True)
print('ok')
