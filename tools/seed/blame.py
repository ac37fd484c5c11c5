"""blame.py: lists the planted bugs that don't count, as they touch no line of the original repository (an insertion: both neighbours must be original)."""
import glob, os, re, subprocess
base = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, stdout=subprocess.PIPE).stdout.decode().split()[0]


def added(f, cache={}):
    if f not in cache:
        t = subprocess.run(["git", "-C", "/repo", "diff", "-U0", base, "HEAD", "--", f], stdout=subprocess.PIPE).stdout.decode()
        s = set()
        for m in re.finditer(r"(?m)^@@ -\S+ \+(\d+)(?:,(\d+))? @@", t):
            n = 1 if m[2] is None else int(m[2])
            s.update(range(int(m[1]), int(m[1]) + (n or 1)))
        cache[f] = s
    return cache[f]


for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f, n, ok, run = None, 0, False, None
    for l in open(p).read().splitlines() + ["@@ -0"]:
        if l[:1] in "-+" and not l.startswith(("---", "+++")):
            if run is None:
                run = [n, []]
            if l[0] == "-":
                run[1].append(n)
                n += 1
            continue
        if run is not None:
            x = [i not in added(f) for i in run[1]] or [run[0] - 1 not in added(f) and run[0] not in added(f)]
            ok |= any(x)
            run = None
        if l.startswith("--- a/"):
            f = l[6:].strip()
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith(" "):
            n += 1
    if not ok:
        print("doesn't count:", os.path.basename(os.path.dirname(p)))
