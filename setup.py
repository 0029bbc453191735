#!/usr/bin/env python3
"""Checks that the tools the checks use are there. Each check builds its own
harness from /repo's working tree, so there is nothing to build here."""
import shutil, subprocess, sys, tempfile, os
ok = True
for t in ('g++',):
    if not shutil.which(t):
        print('missing: ' + t); ok = False
d = tempfile.mkdtemp()
try:
    src = os.path.join(d, 'a.cpp')
    open(src, 'w').write('#include <openssl/ec.h>\nint main(){return 0;}\n')
    for san in ([], ['-fsanitize=address'], ['-fsanitize=thread']):
        r = subprocess.run(['g++', '-march=x86-64-v3', '-maes', src, '-o', os.path.join(d, 'a')] + san + ['-lcrypto', '-pthread'])
        ok = ok and r.returncode == 0
finally:
    shutil.rmtree(d)
print('setup ok' if ok else 'setup failed')
sys.exit(0 if ok else 1)
