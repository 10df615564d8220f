#!/bin/bash
# builds the verifier and warms the Go build cache for the replay harness
cd "$(dirname "$0")" && python3 - <<'P'
import sys, subprocess, tempfile
sys.path.insert(0, ".")
import check
check.modfiles()
print(check.govc_binary())
with tempfile.TemporaryDirectory() as d:
    check.Harness(d).build()
P
