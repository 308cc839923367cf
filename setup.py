#!/usr/bin/env python3
"""setup_cmd: checks that the tools the harnesses need are here; harnesses are built by each check."""
import os, shutil, sys
for t in ('gcc', 'certtool', 'openssl'):
    print(t, shutil.which(t))
HERE = os.path.dirname(os.path.abspath(__file__))
for d in ('build', 'evidence', 'replays'):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
sys.exit(0 if shutil.which('gcc') else 1)
