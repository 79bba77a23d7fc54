#!/usr/bin/env python3
"""mkseed.py <file.seed>...: makes seeded/<id>/ from a short description (edits of /repo's files and a demonstration).

Sections of a .seed file: "id", "property", "needs", "breaks" lines, then any number of edits
@@ path
<<<<
old text
====
new text
>>>>
and at last "%% demo" followed by the demonstration's C++ code (or "%% demo.sh" followed by a script)."""
import difflib, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = "/repo"
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp /tmp/pillow-demo.XXXXXX)
g++ -std=c++14 -O1 -fPIC -w $(pkg-config --cflags Qt5Core Qt5Network Qt5Script Qt5Test) -DPILLOW_ZLIB -I"$D" -I"$R/pillowcore" "$D/demo.cpp" -o "$T" -L"$R/_build/lib" -lpillowcore -lQt5Test -lQt5Script -lQt5Network -lQt5Core -lz || exit 2
LD_LIBRARY_PATH="$R/_build/lib" MALLOC_PERTURB_=165 timeout 120 "$T"; X=$?
unlink "$T"; exit $X
'''
for f in sys.argv[1:]:
    t = open(f).read(); head = dict(re.findall(r"^(id|property|needs|breaks): (.*)$", t, re.M))
    body, _, demo = t.partition("\n%% demo")
    d = os.path.join(V, "seeded", head["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    diff = ""; files = {}
    for path, old, new in re.findall(r"^@@ ([^\n]*)\n<<<<\n(.*?)====\n(.*?)>>>>$", body, re.M | re.S):
        s = files.get(path) or open(os.path.join(REPO, path)).read()
        if s.count(old) != 1: sys.exit("%s: %d matches in %s of:\n%s" % (f, s.count(old), path, old))
        files[path] = s.replace(old, new)
    for path, s in files.items():
        with tempfile.NamedTemporaryFile("w") as n:
            n.write(s); n.flush()
            o = subprocess.run(["diff", "-u", "--label", "a/" + path, "--label", "b/" + path, os.path.join(REPO, path), n.name], stdout=subprocess.PIPE, text=True).stdout
        diff += o
    open(d + "/patch.diff", "w").write(diff)
    removed = 0
    for path in files: # The changed lines have to be the original repository's.
        blame = subprocess.run(["git", "-C", REPO, "blame", "-s", path], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()
        old, new = open(os.path.join(REPO, path)).read().splitlines(), files[path].splitlines()
        for tag, a, b, _, _ in difflib.SequenceMatcher(None, old, new, False).get_opcodes():
            if tag in ("replace", "delete"):
                for i in range(a, b):
                    if blame[i].startswith("^"): removed += 1
                    else: print("%s: not an original line: %s" % (f, old[i].strip()))
    if not removed: print(f + ": changes no original line")
    json.dump({"property": head["property"], "needs": head["needs"], "what_it_breaks": head["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    kind, _, code = demo.partition("\n")
    if kind == ".sh": open(d + "/demo.sh", "w").write(code)
    else:
        open(d + "/demo.sh", "w").write(SH)
        open(d + "/demo.cpp", "w").write('#include "demo.h"\n' + code); shutil.copy(V + "/tools/seedlib/demo.h", d)
    os.chmod(d + "/demo.sh", 0o755); print("made", d)
