#!/usr/bin/env python3
"""Checks that the harness builds offline. The checks build it themselves."""
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import check  # noqa: E402

env = check.base_env()
go = check.go_bin()
env["PATH"] = os.path.dirname(go) + ":" + env.get("PATH", "/usr/bin:/bin")
env.update(GOPROXY="off", GOTOOLCHAIN="local", GONOSUMDB="*", GOFLAGS="")
sys.exit(subprocess.run([go, "test", "-mod=mod", "-c", "-o", os.devnull, "."],
                        cwd=os.path.join(V, "harness"), env=env).returncode)
