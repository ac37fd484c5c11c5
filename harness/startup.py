"""Processes started in a runtime directory in any condition, under any umask, one after another and at the same time."""
import glob, json, os, re, shutil, signal, socket, stat, subprocess, time

from hypothesis import strategies as st

from .gen import chance, pick
from .parts import Part
from .world import HarnessError

CONF = """http_listen = "127.0.0.1:0"; https_listen = none;
account "x" { auth_uri = "http://auth.example/a"; client_id = "cid"; token_uri = "http://127.0.0.1:9/t"; }
"""


class Bad(Exception):
    def __init__(self, cat, msg):
        Exception.__init__(self, msg)
        self.cat = cat


@st.composite
def case(draw):
    c = {"umask": draw(pick([0, 0, 0o22, 0o77, 0o27, 0o2, 0o177, 0o777])), "env": draw(pick(["xdg", "xdg", "xdg", "tmpdir"]))}
    modes = [0o700, 0o755, 0o777, 0o1777, 0o750, 0o711, 0o770, 0o2775, 0o500, 0o400, 0o000]
    c["base"] = draw(st.one_of(st.none(), pick(modes), pick(modes)))
    c["leaf"] = draw(st.one_of(st.none(), pick(modes), pick(modes))) if c["base"] is not None else None
    if c["leaf"] is not None and draw(chance(0.06)):
        c["leaf"] = "file"
    if isinstance(c["leaf"], int):
        c["sock"] = draw(pick([None, "stale"]))
    c["conf"] = draw(pick(["-c ", "-c", "xdg", "home"]))
    c["odd"] = draw(pick(["", "", "with space", "\u00fcml\u2603"]))
    runs = [draw(pick(["info", "info", "infoj", "show", "server", "server", "status", "revoke"])) for _ in range(draw(pick([1, 1, 1, 2, 4, 8, 12])))]
    c["first"] = runs
    c["end"] = [draw(pick(["kill", "shutdown", "term", "int", "hup"])) for _ in range(draw(pick([1, 1, 2, 3])))]
    c["chmod"] = draw(st.one_of(st.none(), pick(modes[1:6])))
    return c


class Startup(Part):
    name = "startup"
    nontrivial = ["started"]
    rule = ("startup: a case is a condition of the runtime directory (absent, modes, leftovers at the socket's path), a umask, a way of naming the directory and the configuration, "
            "the processes started at once, and how servers end; non-trivial when a server came up in it")
    assumptions = ["the startup part runs servers in real time, without the shim"]

    def __init__(self, pid, cats, n):
        self.pid, self.cats, self.n = pid, cats, n

    def strategy(self):
        return case()

    def run(self, c, paths, workdir):
        r = Run(c, paths, workdir)
        try:
            r.go()
            return "ok", "", r.stats
        except Bad as b:
            return "violation:" + b.cat, str(b), r.stats
        finally:
            r.close()


class Run:
    def __init__(self, c, paths, d):
        self.c, self.bin = c, paths["bin"]
        self.d = os.path.join(d, "w " + c["odd"]) if c["odd"] else d
        os.makedirs(self.d, exist_ok=True)
        self.stats = {}
        self.servers = []
        self.paths = paths
        self.top = d

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def close(self):
        for p in self.servers:
            if p.poll() is None:
                p.kill()
            p.wait()
        for root, dirs, files in os.walk(self.top):
            for x in dirs:
                try:
                    os.chmod(os.path.join(root, x), 0o700)
                except OSError:
                    pass

    def start(self, what):
        um = self.c["umask"]
        cl, cf = self.conf_args()
        name, _, j = what.partition("infoj")
        args = {"info": ["info"] + cl, "infoj": ["info", "-j"] + cl, "show": ["show", "--", "x"], "server": ["server", "-d"] + cl, "status": ["status"],
                "revoke": ["revoke", "x"], "shutdown": ["shutdown"]}[what]
        o = open(os.path.join(self.d, "out%d" % len(os.listdir(self.d))), "w+b")
        e = open(os.path.join(self.d, "err%d" % len(os.listdir(self.d))), "w+b")
        p = subprocess.Popen([self.bin] + args, env=self.env, cwd=self.d, stdin=subprocess.DEVNULL, stdout=o, stderr=e, umask=um, start_new_session=True)
        p.what, p.o, p.e = what, o, e
        if what == "server":
            self.servers.append(p)
        return p

    def conf_args(self):
        k, p = self.c["conf"], self.conf
        return {"-c ": ["-c", p], "-c": ["-c" + p], "xdg": [], "home": []}[k], p

    def finish(self, p, wall=60):
        try:
            p.wait(wall)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise Bad("cli", "%s does not end" % p.what)
        return self.result(p)

    def result(self, p):
        p.o.seek(0)
        p.e.seek(0)
        return p.returncode, p.o.read().decode("utf-8", "replace"), p.e.read().decode("utf-8", "replace")

    def one(self, what):
        p = self.start(what)
        return self.finish(p)

    def up(self, p=None, wall=60.0):
        """Wait until a server answers on the socket; False when all have ended."""
        t0 = time.monotonic()
        while True:
            s = socket.socket(socket.AF_UNIX)
            try:
                cwd = os.getcwd()
                s.connect(self.sockname())
                s.close()
                return True
            except OSError:
                s.close()
            if all(q.poll() is not None for q in self.servers):
                return False
            if time.monotonic() - t0 > wall:
                raise Bad("life", "server neither ends nor answers")
            time.sleep(0.003)

    def sockname(self):
        p = os.path.join(self.leaf, "pizauth.sock")
        if len(p.encode()) > 100:
            raise HarnessError("socket path too long")
        return p

    def check_mode(self, when):
        st_ = os.stat(self.leaf)
        m = stat.S_IMODE(st_.st_mode)
        if m & 0o077 or m & 0o700 != 0o700:
            raise Bad("perm", "%s the directory with the socket has mode %04o (umask %04o)" % (when, m, self.c["umask"]))
        self.count("mode_checked")

    def go(self):
        c = self.c
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "TZ": "UTC", "SHELL": "/bin/sh", "RUST_BACKTRACE": "0"}
        home = os.path.join(self.d, "home")
        os.mkdir(home)
        env["HOME"] = home
        if c["env"] == "xdg":
            base = os.path.join(self.d, "rt")
            env["XDG_RUNTIME_DIR"] = base
        else:
            t = os.path.join(self.d, "tmp")
            os.mkdir(t)
            env["TMPDIR"] = t
            # the name the program uses for this user
            probe = dict(env)
            import getpass, pwd
            base = os.path.join(t, "runtime-" + pwd.getpwuid(os.getuid()).pw_name)
        self.env = env
        self.leaf = os.path.join(base, "pizauth")
        self.conf = os.path.join(self.d, "pizauth.conf")
        if c["conf"] == "xdg":
            env["XDG_CONFIG_HOME"] = os.path.join(self.d, "xc")
            os.mkdir(env["XDG_CONFIG_HOME"])
            self.conf = os.path.join(env["XDG_CONFIG_HOME"], "pizauth.conf")
        elif c["conf"] == "home":
            os.mkdir(os.path.join(home, ".config"))
            self.conf = os.path.join(home, ".config", "pizauth.conf")
        with open(self.conf, "w") as f:
            f.write(CONF)
        if c["base"] is not None:
            os.mkdir(base)
        if c["leaf"] == "file":
            with open(self.leaf, "w") as f:
                f.write("precious")
        elif c["leaf"] is not None:
            os.mkdir(self.leaf)
            sk = c.get("sock")
            if sk == "stale":
                s = socket.socket(socket.AF_UNIX)
                s.bind(self.sockname())
                s.close()
            os.chmod(self.leaf, c["leaf"])
        if c["base"] is not None:
            os.chmod(base, c["base"])
        ps = [self.start(w) for w in c["first"]]
        cli = [p for p in ps if p.what != "server"]
        for p in cli:
            rc, out, err = self.finish(p)
            if c["leaf"] == "file":
                if p.what.startswith("info"):
                    continue
                if rc == 0 or not err.strip() or out:
                    raise Bad("cli", "%s without a usable directory: exit %r, %r %r" % (p.what, rc, out, err))
                continue
            if p.what == "info":
                if rc != 0 or "cache directory: %s\n" % self.leaf not in out or "config file: %s\n" % self.conf not in out:
                    raise Bad("info", "info among %r: exit %r, %r %r; expected directory %r and file %r" % (c["first"], rc, out, err, self.leaf, self.conf))
            elif p.what == "infoj":
                try:
                    j = json.loads(out)
                except ValueError:
                    j = {}
                if rc != 0 or j.get("cache_directory") != self.leaf or j.get("config_file") != self.conf:
                    raise Bad("info", "info -j among %r: exit %r, %r %r" % (c["first"], rc, out, err))
            elif p.what == "show":
                if rc != 1 or out or not err.strip():
                    raise Bad("cli", "show among %r: exit %r, %r %r" % (c["first"], rc, out, err))
            else:
                # either there was a server by then, or not
                if (rc != 0) != bool(err.strip()) or "panicked" in err:
                    raise Bad("cli", "%s among %r: exit %r, %r %r" % (p.what, c["first"], rc, out, err))
        if c["leaf"] == "file":
            p = self.start("server")
            for p in list(self.servers):
                rc, out, err = self.finish(p, 20)
                if rc != 1 or not err.strip():
                    raise Bad("cli", "server without a usable directory: exit %r, %r" % (rc, err))
            if not os.path.isfile(self.leaf) or open(self.leaf).read() != "precious":
                raise Bad("life", "a file in the place of the directory was overwritten")
            self.count("unusable")
            return
        if cli:
            self.check_mode("after %r" % (c["first"],))
        want = len(self.servers)
        if not want:
            self.start("server")
        if not self.up():
            raise Bad("life", "no server comes up in the directory (base %r, leaf %r, %r there): %r" %
                      (c["base"], c["leaf"], c.get("sock"), [self.result(p) for p in self.servers]))
        self.settle_servers()
        self.count("started")
        first = None
        for i, how in enumerate(c["end"]):
            self.check_mode("with a server running")
            url = self.pending()
            if first == url:
                raise Bad("life", "a new server still has the request of its predecessor")
            first = url
            if c["chmod"] is not None and i == 0:
                os.chmod(self.leaf, c["chmod"])
            # another one
            p = self.start("server")
            rc, out, err = self.finish(p)
            if rc != 1 or not err.strip():
                raise Bad("life", "a second server: exit %r, %r %r" % (rc, out, err))
            if self.pending() != url:
                raise Bad("life", "a second server disturbed the first")
            self.check_mode("after another server was started")
            live = [q for q in self.servers if q.poll() is None]
            if len(live) != 1:
                raise Bad("life", "%d servers are running" % len(live))
            q = live[0]
            if how == "shutdown":
                rc, out, err = self.one("shutdown")
                if rc != 0:
                    raise Bad("life", "shutdown: exit %r, %r" % (rc, err))
                rc, _, err = self.finish(q, 30)
            else:
                q.send_signal({"kill": signal.SIGKILL, "term": signal.SIGTERM, "int": signal.SIGINT, "hup": signal.SIGHUP}[how])
                self.finish(q, 30)
            rc, out, err = self.one("show")
            if rc != 1 or out or not err.strip():
                raise Bad("cli", "show after the server's end: exit %r, %r %r" % (rc, out, err))
            self.servers = []
            self.start("server")
            if not self.up():
                raise Bad("life", "no server can be started after %s: %r" % (how, self.result(self.servers[0])))
            self.count("restarted")
        self.pending()
        self.one("shutdown")

    def pending(self):
        rc, out, err = self.one("show")
        m = re.search(r"http://auth\.example/a\S*", err)
        if rc != 1 or out or not m:
            raise Bad("life", "show: exit %r, %r %r" % (rc, out, err))
        return m.group(0)

    def settle_servers(self):
        """Of several servers started at once one remains."""
        t0 = time.monotonic()
        while sum(p.poll() is None for p in self.servers) > 1:
            if time.monotonic() - t0 > 10:
                raise Bad("life", "%d servers are running at the same time" % sum(p.poll() is None for p in self.servers))
            time.sleep(0.005)
        for p in self.servers:
            if p.poll() is not None:
                rc, out, err = self.result(p)
                if rc != 1 or not err.strip():
                    raise Bad("life", "of several servers one ended with %r, %r" % (rc, err))
        if not self.up():
            raise Bad("life", "of several servers none remains: %r" % [self.result(p) for p in self.servers])
