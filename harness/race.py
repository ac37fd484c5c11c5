"""Processes that start in the same runtime directory at the same time, with every order of their system calls, and crashes between any two of these."""
import json, os, re, select, shutil, signal, socket, stat, struct, subprocess, time

from hypothesis import strategies as st

from .gen import chance, pick
from .parts import Part
from .startup import CONF, Bad
from .world import HarnessError


@st.composite
def case(draw):
    c = {"dir": draw(pick(["none", "base", "leaf", "leaf", "stale", "stale"]))}
    c["incumbent"] = draw(chance(0.3))
    n = draw(pick([1, 2, 2, 2, 3, 3, 4]))
    c["procs"] = [draw(pick(["server"] * 6 + ["show", "status", "info", "shutdown", "revoke"])) for _ in range(n)]
    # who runs, and for how many steps
    c["sched"] = draw(st.lists(st.tuples(st.integers(0, 4), pick([1, 1, 1, 2, 2, 3, 5, 8])).map(list), min_size=0 if n == 1 else 3, max_size=6 * n))
    c["kills"] = [[draw(st.integers(0, 12 * n)), draw(st.integers(0, n - 1))] for _ in range(draw(pick([0, 0, 0, 1, 1, 2])))]
    return c


class Race(Part):
    name = "race"
    nontrivial = ["raced", "crashed"]
    rule = ("race: a case is a condition of the runtime directory, up to four processes (servers and clients) started in it, the order in which their system calls on files in it take "
            "effect, and crashes between two of these calls; non-trivial when two of them were at work at once or one was killed half-way")
    assumptions = ["the race part gates connect, bind, listen, unlink, rename, mkdir, chmod, open and stat calls on paths in the runtime directory, and runs in real time"]

    def __init__(self, pid, cats, n):
        self.pid, self.cats, self.n = pid, cats, n

    def strategy(self):
        return case()

    def run(self, c, paths, workdir):
        r = Run(c, paths, workdir)
        try:
            r.go()
            return "ok", "", r.stats
        except Bad as b:
            return "violation:" + b.cat, str(b), r.stats
        finally:
            r.close()


class Proc:
    def __init__(self, what):
        self.what = what
        self.conn = None      # to its gate
        self.at = None        # the call it wants to make
        self.killed = False
        self.steps = 0
        self.buf = b""


class Run:
    def __init__(self, c, paths, d):
        self.c, self.paths, self.d = c, paths, d
        self.stats = {}
        self.procs = []
        self.seen = None   # the process known to serve the socket
        self.lost = False  # it has been killed
        self.ends = False  # a shutdown command takes part
        self.trace = []

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def close(self):
        for p in self.procs:
            if p.p.poll() is None:
                p.p.kill()
            p.p.wait()
            if p.conn:
                p.conn.close()
            p.o.close()
            p.e.close()
        self.ls.close()

    def start(self, what, gated=True):
        p = Proc(what)
        args = {"info": ["info", "-c", self.conf], "show": ["show", "--", "x"], "server": ["server", "-d", "-c", self.conf], "status": ["status"],
                "revoke": ["revoke", "x"], "shutdown": ["shutdown"]}[what]
        n = len(self.procs)
        p.o, p.e = open(os.path.join(self.d, "out%d" % n), "w+b"), open(os.path.join(self.d, "err%d" % n), "w+b")
        env = dict(self.env)
        if gated:
            env.update(LD_PRELOAD=self.paths["gate"], PZ_GATE=self.gate, PZ_GATE_DIR=self.base)
        p.p = subprocess.Popen([self.paths["bin"]] + args, env=env, cwd=self.d, stdin=subprocess.DEVNULL, stdout=p.o, stderr=p.e, start_new_session=True)
        self.procs.append(p)
        if gated:
            self.ls.settimeout(30)
            try:
                p.conn, _ = self.ls.accept()
            except socket.timeout:
                raise HarnessError("a gated process doesn't report")
            if self.peer(p.conn) != p.p.pid:
                raise HarnessError("unexpected process at the gate")
            p.conn.setblocking(False)
        return p

    @staticmethod
    def peer(s):
        return struct.unpack("3i", s.getsockopt(socket.SOL_SOCKET, socket.SO_PEERCRED, 12))[0]

    def snapshot(self, p):
        """None when it is running, else something that changes when it runs."""
        r = []
        d = "/proc/%d/task" % p.p.pid
        try:
            for t in sorted(os.listdir(d)):
                with open(os.path.join(d, t, "stat")) as f:
                    if f.read().rpartition(")")[2].split()[0] not in "SZXI":
                        return None
                with open(os.path.join(d, t, "status")) as f:
                    r += [t] + re.findall(r"ctxt_switches:\s*(\d+)", f.read())
        except OSError:
            return None
        return r

    def listen(self, p):
        if p.conn is None or p.at is not None:
            return
        try:
            b = p.conn.recv(4096)
        except BlockingIOError:
            return
        except OSError:
            b = b""
        if not b:
            p.conn.close()
            p.conn = None
            return
        p.buf += b
        if p.buf.endswith(b"\n"):
            p.at = p.buf.decode("utf-8", "replace").strip()
            p.buf = b""

    def settle(self):
        """Until every process has ended, is at a gate, or waits for something else."""
        t0 = time.monotonic()
        last = {}
        same = 0
        while True:
            busy = False
            snap = {}
            for p in self.procs:
                self.listen(p)
                if p.p.poll() is not None or p.at is not None:
                    continue
                snap[p.p.pid] = s = self.snapshot(p)
                if s is None:
                    busy = True
            for p in self.procs:
                # whatever arrived while we looked
                self.listen(p)
                if p.at is not None and p.p.pid in snap:
                    busy = True
            same = same + 1 if not busy and snap == last else 0
            last = snap
            if not busy and (not snap or same >= 2):
                return
            if time.monotonic() - t0 > 60:
                raise HarnessError("processes do not settle: %r" % [(p.what, p.at) for p in self.procs])
            time.sleep(0.0007)

    def reachable(self):
        """Which process serves the socket?"""
        s = socket.socket(socket.AF_UNIX)
        try:
            s.connect(self.sock)
            return self.peer(s)
        except OSError:
            return None
        finally:
            s.close()

    def steady(self, when):
        """A server that has served once goes on serving."""
        if self.ends:
            return
        r = self.reachable()
        if r is None and self.seen is not None:
            raise Bad("life", "the running server can't be reached any more %s; history: %s" % (when, "; ".join(self.trace)))
        if r is not None and self.seen is not None and r != self.seen:
            raise Bad("life", "another server has taken the place of the running one %s; history: %s" % (when, "; ".join(self.trace)))
        self.seen = r

    def name(self, p):
        return "%s%d" % (p.what, self.procs.index(p))

    def result(self, p):
        p.o.seek(0)
        p.e.seek(0)
        return p.p.returncode, p.o.read().decode("utf-8", "replace"), p.e.read().decode("utf-8", "replace")

    def one(self, what):
        p = self.start(what, False)
        try:
            p.p.wait(60)
        except subprocess.TimeoutExpired:
            raise Bad("cli", "%s does not end; history: %s" % (what, "; ".join(self.trace)))
        return self.result(p)

    def url(self, when):
        rc, out, err = self.one("show")
        m = re.search(r"http://auth\.example/a\S*", err)
        if rc != 1 or out or not m:
            raise Bad("life", "show %s: exit %r, %r %r; history: %s" % (when, rc, out, err, "; ".join(self.trace)))
        return m.group(0)

    def up(self, p):
        t0 = time.monotonic()
        while self.reachable() is None:
            if p.p.poll() is not None:
                return False
            if time.monotonic() - t0 > 60:
                raise Bad("life", "a server neither ends nor answers; history: " + "; ".join(self.trace))
            time.sleep(0.002)
        return True

    def go(self):
        c = self.c
        self.base = os.path.join(self.d, "rt")
        self.leaf = os.path.join(self.base, "pizauth")
        self.sock = os.path.join(self.leaf, "pizauth.sock")
        self.conf = os.path.join(self.d, "pizauth.conf")
        self.gate = os.path.join(self.d, "gate")
        self.env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "TZ": "UTC", "SHELL": "/bin/sh", "RUST_BACKTRACE": "0", "HOME": self.d, "XDG_RUNTIME_DIR": self.base}
        with open(self.conf, "w") as f:
            f.write(CONF)
        self.ls = socket.socket(socket.AF_UNIX)
        self.ls.bind(self.gate)
        self.ls.listen(16)
        if c["dir"] != "none":
            os.mkdir(self.base, 0o755)
        if c["dir"] in ("leaf", "stale"):
            os.mkdir(self.leaf, 0o755)
        if c["dir"] == "stale":
            s = socket.socket(socket.AF_UNIX)
            s.bind(self.sock)
            s.close()
        inc = url = None
        if c["incumbent"]:
            inc = self.start("server", False)
            if not self.up(inc):
                raise Bad("life", "no server comes up: %r" % (self.result(inc),))
            url = self.url("at first")
            self.trace.append("server0 runs")
        self.ends = "shutdown" in c["procs"]
        self.steady("at first")
        todo = list(c["procs"])
        mine = []
        kills = sorted(c["kills"])
        sched = [list(x) for x in c["sched"]]
        step = 0
        while True:
            for k, i in list(kills):
                if k <= step and i < len(mine):
                    kills.remove([k, i])
                    p = mine[i]
                    if p.p.poll() is None and p.what == "server":
                        if self.seen == p.p.pid:
                            self.seen = None
                            self.lost = True
                        else:
                            self.count("crashed")
                        self.trace.append("%s is killed%s" % (self.name(p), " before " + p.at if p.at else ""))
                        p.p.kill()
                        p.p.wait()
                        p.killed, p.at = True, None
                        self.settle()
                        self.steady("after a crash")
            acts = [p for p in mine if p.at is not None and p.p.poll() is None]
            if todo:
                acts.append(None)
            if not acts:
                break
            a = acts[(sched[0][0] if sched else 0) % len(acts)]
            if sched:
                sched[0][1] -= 1
                if sched[0][1] < 1:
                    sched.pop(0)
            if a is None:
                a = self.start(todo.pop(0))
                mine.append(a)
                self.trace.append("%s starts" % self.name(a))
            else:
                if sum(p.at is not None for p in mine) > 1:
                    self.count("raced")
                self.trace.append("%s: %s" % (self.name(a), a.at))
                a.at = None
                a.steps += 1
                try:
                    a.conn.send(b"g")
                except OSError:
                    pass
            self.settle()
            self.steady("after that")
            step += 1
            if step > 600:
                raise HarnessError("endless schedule")
        t0 = time.monotonic()
        while any(p.what != "server" and p.p.poll() is None for p in mine):
            if time.monotonic() - t0 > 30:
                raise Bad("cli", "a client does not end; history: " + "; ".join(self.trace))
            time.sleep(0.002)
        tr = "; history: " + "; ".join(self.trace)
        servers = [p for p in self.procs if p.what == "server" and not p.killed]
        if self.ends:
            # whoever was told to end may take a moment
            t0 = time.monotonic()
            while sum(p.p.poll() is None for p in servers) > 1 and time.monotonic() - t0 < 2:
                time.sleep(0.01)
        live = [p for p in servers if p.p.poll() is None]
        if len(live) > 1:
            raise Bad("life", "%d servers are running at the same time%s" % (len(live), tr))
        for p in servers:
            if p.p.poll() is not None:
                rc, out, err = self.result(p)
                if self.ends and rc == -signal.SIGTERM:
                    continue
                if rc != 1 or not err.strip() or out:
                    raise Bad("life", "of several servers one ended with %r, %r%s" % (rc, err, tr))
        if servers and not live and not self.ends and not self.lost:
            raise Bad("life", "of several servers none remains: %r%s" % ([self.result(p) for p in servers], tr))
        for p in mine:
            if p.what == "server" or p.killed:
                continue
            rc, out, err = self.result(p)
            ok = {"info": rc == 0 and bool(out), "show": rc == 1 and not out and bool(err.strip()), "status": (rc == 0 and out.startswith("x: ")) or (rc == 1 and not out and bool(err.strip())),
                  "revoke": not out and (rc == 0) == (not err.strip()), "shutdown": not out and (rc == 0) == (not err.strip())}[p.what]
            if not ok or "panicked" in err:
                raise Bad("cli", "%s: exit %r, %r %r%s" % (p.what, rc, out, err, tr))
            if inc and not self.ends and p.what in ("show", "status", "revoke") and "not running" in err:
                raise Bad("cli", "%s does not reach the running server: exit %r, %r%s" % (p.what, rc, err, tr))
        if live:
            if not self.ends or live[0].p.poll() is None:
                r = self.reachable()
                if r != live[0].p.pid and live[0].p.poll() is None:
                    raise Bad("life", "the running server (%r) isn't the one that can be reached (%r)%s" % (live[0].p.pid, r, tr))
            m = stat.S_IMODE(os.stat(self.leaf).st_mode)
            if m & 0o077:
                raise Bad("perm", "the directory with the socket has mode %04o%s" % (m, tr))
            if inc and not self.ends:
                if live[0] is not inc:
                    raise Bad("life", "another server took the place of the running one" + tr)
                if "revoke" not in c["procs"] and self.url("at last") != url:
                    raise Bad("life", "another server disturbed the running one" + tr)
        else:
            p = self.start("server", False)
            if not self.up(p):
                raise Bad("life", "no server can be started any more: %r%s" % (self.result(p), tr))
            self.url("by a new server")
            self.count("restarted")
