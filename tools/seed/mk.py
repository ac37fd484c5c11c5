"""mk.py [ID...]: writes /verif/seeded/<id>/ from the definitions in bugs*.py (edits are made in a scratch copy of /repo)."""
import glob, importlib.util, json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(H))
BUGS = {}


def bug(id, prop, needs, breaks, edits, demo, shim=None):
    BUGS[id] = dict(property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo, shim=shim)


if __name__ == "__main__":
    sys.modules["mk"] = sys.modules["__main__"]
    sys.path.insert(0, H)
    for f in sorted(glob.glob(os.path.join(H, "bugs*.py"))):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        spec.loader.exec_module(importlib.util.module_from_spec(spec))
    ids = sys.argv[1:] or list(BUGS)
    W = "/tmp/mkseed"
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    for i in ids:
        b = BUGS[i]
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W, check=True)
        for f, old, new in b["edits"]:
            p = os.path.join(W, f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit("%s: %r occurs %d times in %s" % (i, old, s.count(old), f))
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(V, "seeded", i)
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "diff"], cwd=W, stdout=subprocess.PIPE, check=True).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        shutil.copy(os.path.join(H, "pz.py"), d)
        open(os.path.join(d, "demo.py"), "w").write("from pz import *\n" + b["demo"].strip("\n") + "\n")
        sh = "#!/bin/bash\n# %s\n" % b["what_it_breaks"]
        if b["shim"]:
            open(os.path.join(d, "shim.c"), "w").write(b["shim"])
            sh += 'T=$(mktemp -d); trap "rm -rf $T" EXIT\ngcc -shared -fPIC -o $T/shim.so "$(dirname "$0")/shim.c" -ldl || exit 9\nSHIM=$T/shim.so python3 -B "$(dirname "$0")/demo.py"\n'
        else:
            sh += 'exec python3 -B "$(dirname "$0")/demo.py"\n'
        open(os.path.join(d, "demo.sh"), "w").write(sh)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
    shutil.rmtree(W, ignore_errors=True)
