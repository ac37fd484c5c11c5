"""Builds what the checks run: pizauth from /repo's working tree, the clock shim and the recording shell."""
import fcntl, hashlib, os, re, shutil, struct, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PZ_REPO", "/repo")
OUT = os.environ.get("PZ_BUILD", os.path.join(VERIF, ".build"))


class BuildError(Exception):
    pass


def _seed_target(tgt):
    """Reuse compiled dependencies (never pizauth itself) from /repo/target to save time."""
    src = os.path.join(REPO, "target", "debug")
    dst = os.path.join(tgt, "debug")
    if os.path.isdir(dst) or not os.path.isdir(os.path.join(src, ".fingerprint")):
        return
    tmp = dst + ".tmp%d" % os.getpid()
    os.makedirs(tmp)

    def ign(d, names):
        return [n for n in names if n.startswith("pizauth") or n.startswith("libpizauth")]

    for d in ("deps", "build", ".fingerprint"):
        shutil.copytree(os.path.join(src, d), os.path.join(tmp, d), symlinks=True, ignore=ign,
                        copy_function=shutil.copy2)
    os.rename(tmp, dst)


def _source_hash():
    h = hashlib.sha256(REPO.encode())
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            try:
                with open(p, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                pass
    return h.hexdigest()


def _forget_stale(tgt):
    """cargo goes by time stamps; go by content, too: a tree that changed is always rebuilt."""
    h, p = _source_hash(), os.path.join(OUT, "source.sha256")
    try:
        with open(p) as f:
            if f.read() == h:
                return
    except OSError:
        pass
    fp = os.path.join(tgt, "debug", ".fingerprint")
    for d in os.listdir(fp) if os.path.isdir(fp) else []:
        if d.startswith("pizauth-"):
            shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    with open(p, "w") as f:
        f.write(h)


def build(quiet=True):
    os.makedirs(OUT, exist_ok=True)
    lk = open(os.path.join(OUT, "lock"), "w")
    fcntl.flock(lk, fcntl.LOCK_EX)
    try:
        tgt = os.path.join(OUT, "target")
        try:
            _seed_target(tgt)
        except (OSError, shutil.Error):
            shutil.rmtree(os.path.join(tgt, "debug"), ignore_errors=True)
        _forget_stale(tgt)
        env = dict(os.environ)
        env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
        env.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
                   CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
        cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
               "--target-dir", tgt]
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            # a damaged cache must not look like a broken tree
            shutil.rmtree(tgt, ignore_errors=True)
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise BuildError(r.stdout.decode(errors="replace")[-4000:])
        for name, args in (("pzshim.so", ["-shared", "-fPIC"]), ("gate.so", ["-shared", "-fPIC"]), ("recsh", ["-static"])):
            src = os.path.join(VERIF, "shim", name.replace(".so", "") + ".c")
            dst = os.path.join(OUT, name)
            if os.path.exists(dst) and os.path.getmtime(dst) > os.path.getmtime(src):
                continue
            r = subprocess.run(["gcc", "-O1", *args, "-o", dst + ".tmp", src], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise BuildError(r.stdout.decode(errors="replace"))
            os.rename(dst + ".tmp", dst)
        with open(os.path.join(OUT, "traps"), "w") as f:
            f.write(_traps(paths()["bin"]))
    finally:
        lk.close()
    return paths()


def _traps(exe):
    """Where the functions are in which the program's own code takes locks (those of the standard library are instantiated per program)."""
    with open(exe, "rb") as f:
        b = f.read()
    if b[:6] != b"\x7fELF\x02\x01":
        return ""
    shoff, = struct.unpack_from("<Q", b, 0x28)
    shentsize, shnum = struct.unpack_from("<HH", b, 0x3a)
    secs = [struct.unpack_from("<IIQQQQIIQQ", b, shoff + i * shentsize) for i in range(shnum)]
    out = []
    for s in secs:
        if s[1] != 2:
            continue
        strs = secs[s[6]]
        names = b[strs[4]:strs[4] + strs[5]]
        for i in range(s[5] // 24):
            n, info, _, shndx, val, _ = struct.unpack_from("<IBBHQQ", b, s[4] + i * 24)
            if info & 15 == 2 and shndx:
                name = names[n:names.index(b"\0", n)]
                if re.match(rb"_R.*6poison(5mutex.*5Mutex.*E4lock|6rwlock.*6RwLock.*E(4read|5write))", name) and b"7pizauth" in name:
                    out.append("%x" % val)
    return ",".join(out[:64])


def paths():
    p = {"bin": os.path.join(OUT, "target", "debug", "pizauth"), "shim": os.path.join(OUT, "pzshim.so"), "gate": os.path.join(OUT, "gate.so"),
         "recsh": os.path.join(OUT, "recsh"), "traps": ""}
    try:
        with open(os.path.join(OUT, "traps")) as f:
            p["traps"] = f.read()
    except OSError:
        pass
    return p


if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        print(e)
        sys.exit(2)
