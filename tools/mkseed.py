"""Used by hand: mkseed(id, prop, needs, breaks, [(file, old, new)...], demo_cpp, flags='')
writes seeded/<id>/ from edits to /repo (undone at once)."""
import json, os, shutil, subprocess
V = "/verif"
R = os.environ.get("SEED_REPO", "/repo")
def mkseed(id, prop, needs, breaks, edits, demo, flags=""):
    d = f"{V}/seeded/{id}"
    assert not subprocess.run(["git", "-C", R, "status", "--porcelain"], capture_output=True, text=True).stdout
    os.makedirs(d, exist_ok=True)
    try:
        for f, a, b in edits:
            p = f"{R}/reference/src/{f}"
            s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
        open(f"{d}/patch.diff", "w").write(diff)
    finally:
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    shutil.copy(f"{V}/tools/seedlib/demo.h", d)
    shutil.copy(f"{V}/tools/seedlib/demo.sh", d)
    open(f"{d}/demo.cpp", "w").write(demo)
    if flags:
        open(f"{d}/flags", "w").write(flags)
    print(id, diff.count("\n+") - 1, "lines added")
