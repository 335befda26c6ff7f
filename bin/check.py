#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
import vt, importlib
reg = {}
for m in ("bits", "text", "codec", "conc", "files", "storage", "queues", "media", "manifests", "fragments", "edits", "times", "transport", "program"):
    reg.update(importlib.import_module(m).CHECKS)
sys.exit(vt.main(reg))
