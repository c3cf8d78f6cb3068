#!/usr/bin/env python3
"""verifies that the tools which the checks need are present; the checks build everything they need themselves"""
import os, shutil, sys
missing = [t for t in ("java", "g++-13", "node") if not shutil.which(t)] + [f for f in ("/opt/veriftools/tla/tla2tools.jar",) if not os.path.exists(f)]
print("missing: " + ", ".join(missing) if missing else "ready")
sys.exit(1 if missing else 0)
