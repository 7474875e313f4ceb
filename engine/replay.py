#!/usr/bin/env python3-vt
"""replay.py PROPERTY HARNESS SEED label=value...: builds the harness natively against /repo and runs it on one input
(or, with no values, as the sweep that found the failure). exit 1: the contract is violated."""
import os, sys, subprocess, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, props, runner
prop, name, seed, vals = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
work = tempfile.mkdtemp(prefix='vc_replay_')
rc = 2
try:
    for u in props.PROPS[prop]['units']:
        src = os.path.join(build.HARNESS, u['src'])
        names = build.harness_names(src)
        if name not in names: continue
        fl = u.get('native_flags', u.get('flags', ('-march=x86-64-v2',)))
        x = build.native(src, os.path.join(work, 'x'), names, flags=fl)
        args = [name, seed] + vals if vals else [name, '--sweep', seed, '60']
        rc = subprocess.run([x] + args, env=dict(os.environ, **runner.ASAN)).returncode
        if rc == 1: break
finally:
    shutil.rmtree(work, ignore_errors=True)
sys.exit(rc)
