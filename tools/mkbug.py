"""usage: mkbug.py SPEC.py   SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ main source) or DEMO_SH, FILES={}"""
import json, os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
W = tempfile.mkdtemp(prefix="mkbug_")
subprocess.check_call(["git", "clone", "-q", "/repo", W + "/r"])
for f, old, new in ns["EDITS"]:
    p = os.path.join(W, "r", f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
d = subprocess.check_output(["git", "-C", W + "/r", "diff"]).decode()
out = "/verif/seeded/" + ns["ID"]
os.makedirs(out, exist_ok=True)
open(out + "/patch.diff", "w").write(d)
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
SH = '''#!/bin/bash
# Run with cwd = the repository. Builds the library sources with a small program and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'find "$T" -delete' EXIT
SRCS=$(find src/pymatching -name '*.cc' ! -name '*.test.cc' ! -name '*.perf.cc' ! -name '*.pybind.cc' ! -path '*/diagram/*' ! -path '*/perf/*' ! -name '*main*.cc')
i=0
for f in $SRCS "$D/demo.cc"; do
  i=$((i+1))
  g++ -std=c++20 -O1 -w -Isrc -I"$D" -c "$f" -o "$T/$i.o" &
  if [ $((i % 8)) = 0 ]; then wait; fi
done
wait
g++ "$T"/*.o -o "$T/demo" -lpthread || exit 3
timeout 60 "$T/demo"
'''
if "DEMO" in ns:
    open(out + "/demo.cc", "w").write(ns["DEMO"])
    shutil.copy("/verif/shim/stim.h", out + "/stim.h")
    open(out + "/demo.sh", "w").write(SH)
else:
    open(out + "/demo.sh", "w").write(ns["DEMO_SH"])
for k, v in ns.get("FILES", {}).items():
    open(out + "/" + k, "w").write(v)
os.chmod(out + "/demo.sh", 0o755)
shutil.rmtree(W)
print("wrote", out)
