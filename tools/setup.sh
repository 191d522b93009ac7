#!/bin/bash
# Builds the verifier (the checks also build it when it is missing).
cd "$(dirname "$0")/.." || exit 1
python3 - <<'P'
import importlib.util, importlib.machinery, tempfile, shutil
l = importlib.machinery.SourceFileLoader("run", "./run")
m = importlib.util.module_from_spec(importlib.util.spec_from_loader("run", l)); l.exec_module(m)
w = tempfile.mkdtemp()
try:
    print(m.build_govc(w))
finally:
    shutil.rmtree(w, ignore_errors=True)
P
