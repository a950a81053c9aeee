#!/usr/bin/env python3
"""Writes harness/fuzzlist_test.go: the tests of each property that are nothing but rapid checks."""
import glob, os, re
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
tests = {}
for f in sorted(glob.glob(H + "/*_test.go")):
    for m in re.finditer(r"^func (Test(C\d+)_\w+)\(t \*testing\.T\) \{\n\tcheck\(t, ", open(f).read(), re.M):
        if not re.search(r"_(Long|Deep|Many|Cold)$", m.group(1)):
            tests.setdefault(m.group(2), []).append(m.group(1))
out = "package verifharness\n\nimport \"testing\"\n\n// Written by tools/gen_fuzz.py.\nvar fuzzTests = map[string][]func(*testing.T){\n"
for k in sorted(tests):
    out += "\t%s: {%s},\n" % ('"' + k + '"', ", ".join(tests[k]))
open(H + "/fuzzlist_test.go", "w").write(out + "}\n")
