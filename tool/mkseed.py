#!/usr/bin/env python3
"""mkseed.py ID PROP: store /repo's working-tree diff as a planted bug; demo.cpp (stdin) / texts from env."""
import json, os, subprocess, sys
i, prop = sys.argv[1:3]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
assert diff, "no change"
open(d + "/patch.diff", "w").write(diff)
subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
src = sys.stdin.read()
lang = os.environ.get("LANGUAGE_", "cpp")
if lang == "cpp":
    open(d + "/demo.cpp", "w").write(src)
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# cwd: /repo after build.sh; exit 0 = the property holds here
d=$(cd "$(dirname "$0")" && pwd); r=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
i="-DUSE_BOOST -I$r/include -I$r/include/math -I$r/include/blas -I$r/include/math/statistics -I$r/include/math/statistics/inference -I$r/include/math/statistics/inference/models"
g++ -std=gnu++17 -O1 %s $i "$d/demo.cpp" -o "$t/demo" -L"$r/_build/cpp" -lldt -Wl,-rpath,"$r/_build/cpp" || exit 3
timeout 200 "$t/demo"
''' % os.environ.get("CXXX", ""))
else:
    open(d + "/demo.R", "w").write(src)
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# cwd: /repo after build.sh; exit 0 = the property holds here
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
R_LIBS=$PWD/_build/R/lib; export R_LIBS
cd "$t" && timeout 280 Rscript --vanilla "$d/demo.R"
''')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": os.environ["NEEDS"], "what_it_breaks": os.environ["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
