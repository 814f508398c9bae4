#!/usr/bin/env python3
"""Nothing is installed: checks compile everything they need themselves.  This only confirms that the tools are there."""
import shutil, subprocess, sys
for t in ("gcc", "g++", "objcopy", "pkg-config", "python3"):
    if not shutil.which(t): sys.exit("missing tool: " + t)
for m in ("json-c", "glib-2.0", "gobject-2.0", "gegl-0.4"):
    subprocess.run(["pkg-config", "--exists", m], check=True)
print("ok")
