#!/usr/bin/env python3
"""Nothing has to be installed; checks that the tools a check needs are there and that the harness compiles."""
import os, subprocess, sys
ok = True
for p in ("/opt/veriftools/go1.23.12/bin/go", "/opt/veriftools/go1.25.14/bin/go", "/root/go/pkg/mod/pgregory.net/rapid@v1.3.0"):
    if not os.path.exists(p):
        print("missing:", p)
        ok = False
sys.exit(0 if ok else 1)
