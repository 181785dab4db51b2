"""mkseed.py FILE...: each FILE is a seed description (python): ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (c++), SOURCES."""
import sys, os, subprocess, json, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# cwd: the repository. Exits 0 when the property holds in this scenario.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O1 -g0 -w -DSIMU_OS_LINUX -I include "$d/demo.cpp" %s -o "$t/demo" -lpthread || exit 3
timeout 120 "$t/demo"
'''
for path in sys.argv[1:]:
    ns = {"SOURCES": "src/Simu/math/*.cpp src/Simu/physics/*.cpp"}
    exec(open(path).read(), ns)
    d = f"{HERE}/seeded/{ns['ID']}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    subprocess.run(f"git -C /repo archive HEAD | tar -x -C {t} && cd {t} && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, check=True)
    for f, old, new in ns["EDITS"]:
        s = open(f"{t}/{f}").read()
        assert s.count(old) == 1, (ns["ID"], f, s.count(old), old)
        open(f"{t}/{f}", "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=t, capture_output=True, text=True).stdout)
    shutil.rmtree(t)
    open(d + "/demo.cpp", "w").write(ns["DEMO"].lstrip())
    open(d + "/demo.sh", "w").write(SH % ns["SOURCES"]); os.chmod(d + "/demo.sh", 0o755)
    if "$d/fake" in ns["SOURCES"]: shutil.copytree(HERE + "/harness/fake", d + "/fake", dirs_exist_ok=True)
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    print("made", ns["ID"])
