#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (run by hand)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = """c01-struct-rest c02-path-any c08-return-attr c16-any-mark c11-get-binding c11-squeeze c02-qself c07-underscore c06-dollar-literal
c16-so-far c15-macro-attrs c06-group-span c13-eprintln c03-drain c18-toml-targets c02-last-segment c03-underscore c11-binding-expr
c05-idents-leak c10-outer-name c09-assign-order c19-macro-items""".split()
print("| bug | check | first | breaks |\n|-----|-------|-------|--------|")
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(d + "/meta.json"))
    i = os.path.basename(d)
    print("| %s | %s | %s | %s |" % (i, m["property"], "missed" if i in MISSED else "caught", m["what_it_breaks"].replace("|", "\\|").rstrip(".")))
