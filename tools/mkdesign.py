#!/usr/bin/env python3
"""Regenerates the tables at the end of DESIGN.md: spaces (from the harness sources) and planted bugs (from seeded/ and tools/caught.json)."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/DESIGN.md").read().split("<!-- generated -->")[0].rstrip() + "\n\n<!-- generated -->\n"
t += "## Spaces explored\n\nOne line per space: name, deviation bound (quick), what is enumerated.\n"
for f in sorted(glob.glob(V + "/harness/*.cpp")):
    t += "\n**%s**\n\n" % os.path.basename(f)
    for m in re.finditer(r'mc::add\("([^"]+)", ([^,]+), [^,]+, "([^"]*)"', open(f).read()):
        t += "* `%s` (%s): %s\n" % m.groups()
c = json.load(open(V + "/tools/caught.json"))
t += "\n## Planted bugs and the checks that catch them\n\nEvery bug under `seeded/` compiles, passes the stable tests, and has a demonstration. \"missed first\": the check had to be strengthened.\n\n| bug | property | needs | caught by |\n|-|-|-|-|\n"
for d in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda d: (json.load(open(d))["property"], d)):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    t += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/"), c.get(i, "?"))
open(V + "/DESIGN.md", "w").write(t)
