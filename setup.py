#!/usr/bin/env python3
"""setup_cmd: parse the specification and warm the build of the harness.  Every check builds
what it needs itself, so this only finds missing tools early."""
import glob, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
for f in sorted(glob.glob(os.path.join(here, "spec", "*.tla"))):
    p = subprocess.run(["tla-sany", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       cwd=os.path.join(here, "spec"))
    if p.returncode != 0 or "***Parse Error***" in p.stdout or "*** Errors" in p.stdout:
        print(p.stdout[-3000:])
        sys.exit(1)
sys.exit(0)
