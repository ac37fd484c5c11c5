"""The world around one pizauth server: fake token endpoints, recording shell, clients, and quiescence."""
import errno, fcntl, json, os, select, shutil, signal, socket, ssl, struct, subprocess, tempfile, time
from urllib.parse import parse_qsl, urlsplit

from .vclock import VClock, NS

SIOCOUTQ = 0x5411
HARD_WALL = 120.0  # a settle that takes longer than this is an error of the harness, not a verdict


class HarnessError(Exception):
    pass


class Livelock(Exception):
    """The server burns CPU for ever without any outside cause (measured in CPU time, not wall time)."""


class Req:
    """One request received by a fake token endpoint."""

    def __init__(self, sock, ep, n):
        self.sock, self.ep, self.id = sock, ep, n
        self.buf = b""
        self.done = False  # complete request received
        self.closed = False  # by the client
        self.answered = False
        self.method = self.target = None
        self.headers = {}
        self.form = None
        self.body = None
        self.t = None

    def parse(self):
        if self.done or b"\r\n\r\n" not in self.buf:
            return False
        head, rest = self.buf.split(b"\r\n\r\n", 1)
        lines = head.decode("latin1").split("\r\n")
        self.method, self.target = lines[0].split(" ")[:2]
        self.headers = {}
        for l in lines[1:]:
            k, _, v = l.partition(":")
            self.headers.setdefault(k.lower().strip(), []).append(v.strip())
        n = int(self.headers.get("content-length", ["0"])[0])
        if len(rest) < n:
            return False
        self.body = rest[:n]
        self.extra = rest[n:]
        try:
            self.form = parse_qsl(self.body.decode("ascii"), keep_blank_values=True, strict_parsing=bool(self.body))
        except (UnicodeDecodeError, ValueError):
            self.form = None
        self.done = True
        return True


class Cmd:
    """One run of the recording shell."""

    def __init__(self, sock, n):
        self.sock, self.id = sock, n
        self.buf = b""
        self.ready = False
        self.ended = False  # connection gone
        self.told = None
        self.pid = None
        self.argv = self.env = None
        self.t = None

    def parse(self):
        b, o = self.buf, 0

        def u32():
            nonlocal o
            if len(b) < o + 4:
                raise IndexError
            v = struct.unpack_from("<I", b, o)[0]
            o += 4
            return v

        def s():
            nonlocal o
            n = u32()
            if len(b) < o + n:
                raise IndexError
            v = b[o:o + n]
            o += n
            return v

        try:
            self.pid = u32()
            self.argv = [s().decode("utf-8", "surrogateescape") for _ in range(u32())]
            self.env = dict(x.decode("utf-8", "surrogateescape").partition("=")[::2] for x in [s() for _ in range(u32())])
        except IndexError:
            return False
        self.ready = True
        return True


def ep_ip(i):
    """Addresses of this process's own, so that concurrent checks never share one."""
    q, r = divmod(os.getpid(), 62)
    return "127.%d.%d.%d" % (1 + q // 256 % 250, q % 256, 1 + r * 4 + i)


def make_context(d, ip, mode, days):
    """A TLS server context with a fresh certificate of ours: self-signed, signed by a root of ours (which is presented too), or without the right name."""
    base = tempfile.mkdtemp(prefix="tls", dir=d)
    f = lambda n: os.path.join(base, n)

    def run(*a):
        r = subprocess.run(["openssl", *a], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        if r.returncode:
            raise HarnessError("openssl: " + r.stdout.decode(errors="replace")[-500:])

    ec = ["-newkey", "ec", "-pkeyopt", "ec_paramgen_curve:prime256v1", "-nodes"]
    name = "IP:%s,DNS:localhost" % ip if mode != "anon" else "DNS:other.example"
    if mode == "chain":
        run("req", "-x509", *ec, "-keyout", f("cak"), "-out", f("ca"), "-days", str(days), "-subj", "/CN=Root")
        run("req", *ec, "-keyout", f("k"), "-out", f("csr"), "-subj", "/CN=" + ip)
        with open(f("ext"), "w") as o:
            o.write("subjectAltName=%s\n" % name)
        run("x509", "-req", "-in", f("csr"), "-CA", f("ca"), "-CAkey", f("cak"), "-CAcreateserial", "-days", str(days), "-extfile", f("ext"), "-out", f("leaf"))
        with open(f("c"), "w") as o:
            o.write(open(f("leaf")).read() + open(f("ca")).read())
    else:
        run("req", "-x509", *ec, "-keyout", f("k"), "-out", f("c"), "-days", str(days), "-subj", "/CN=" + ip, "-addext", "subjectAltName=" + name)
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    ctx.load_cert_chain(f("c"), f("k"))
    shutil.rmtree(base)
    return ctx


class Endpoint:
    """A fake token endpoint on its own loopback address, so connection attempts are attributable."""

    def __init__(self, world, ip):
        self.world = world
        self.ip = ip
        self.sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM | socket.SOCK_NONBLOCK)
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind((ip, 0))
        self.port = self.sock.getsockname()[1]
        # bound again with the port spelled out: only then does the socket keep it while it is not listening
        self.sock.close()
        self.sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM | socket.SOCK_NONBLOCK)
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind((ip, self.port))
        self.sock.listen(128)
        self.up = True
        self.tls = None  # or how it treats a TLS client
        self.ipn = struct.unpack(">I", socket.inet_aton(ip))[0]

    def set_up(self, up):
        if up == self.up:
            return
        self.up = up
        if up:
            self.sock.listen(128)
            self.world.poller.register(self.sock.fileno(), select.EPOLLIN)
            self.world.fds[self.sock.fileno()] = ("ep", self)
        else:
            self.world.poller.unregister(self.sock.fileno())
            self.world.fds.pop(self.sock.fileno(), None)
            self.sock.shutdown(socket.SHUT_RDWR)


class TlsPeer:
    """A connection to an endpoint that speaks TLS with a certificate nobody has reason to trust."""

    def __init__(self, sock, ep):
        self.sock, self.ep = sock, ep
        self.raw = b""
        self.app = b""
        self.shaken = False
        self.mode = ep.tls
        if self.mode in ("self", "chain", "anon"):
            self.inb, self.outb = ssl.MemoryBIO(), ssl.MemoryBIO()
            ctx = ep.world.tls_context(ep, self.mode)
            self.o = ctx.wrap_bio(self.inb, self.outb, server_side=True)

    def feed(self, d):
        """Returns (bytes to send, whether to end the connection: None, "fin" or "rst")."""
        self.raw += d
        if self.mode == "plain":
            b = json.dumps({"access_token": "PLAINTOKEN", "token_type": "Bearer", "expires_in": 3600, "refresh_token": "PLAINRT"}).encode()
            return b"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n" % len(b) + b, "fin"
        if self.mode == "alert":
            return b"\x15\x03\x03\x00\x02\x02\x28", "fin"
        if self.mode == "junk":
            return b"\x16\x03\x03\xff\xff" + b"\0" * 100, "fin"
        if self.mode == "rst":
            return b"", "rst"
        if self.mode not in ("self", "chain", "anon"):
            return b"", "fin"
        self.inb.write(d)
        end = None
        try:
            if not self.shaken:
                self.o.do_handshake()
                self.shaken = True
            while True:
                x = self.o.read(65536)
                if not x:
                    end = "fin"
                    break
                self.app += x
                if b"\r\n\r\n" in self.app:
                    # a server that has got what it wanted goes on as a token server would
                    b = json.dumps({"access_token": "EVILTOKEN", "token_type": "Bearer", "expires_in": 3600}).encode()
                    self.o.write(b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(b) + b)
                    end = "fin"
                    break
        except ssl.SSLWantReadError:
            pass
        except (ssl.SSLError, OSError):
            end = "fin"
        return self.outb.read(), end


class HttpClient:
    """A client of pizauth's HTTP listener (raw bytes)."""

    def __init__(self, sock):
        self.sock = sock
        self.buf = b""
        self.eof = False
        self.rst = False
        self.out = b""


class Proxy:
    """Takes the server's place at its socket, for one connection."""
    def __init__(self, path):
        self.path = path
        os.rename(path, path + "~")
        self.l = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.l.bind(path)
        self.l.listen(4)
        self.l.settimeout(10)

    def run(self, how, cuts):
        try:
            c, _ = self.l.accept()
        except OSError:
            raise HarnessError("the client does not connect")
        c.settimeout(10)
        try:
            if how == "slam":
                return
            data = self.drain(c)
            if how == "lost":
                return
            s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            s.settimeout(20)
            try:
                s.connect(self.path + "~")
                self.pieces(s, data, cuts)
                s.shutdown(socket.SHUT_WR)
                self.pieces(c, self.drain(s), cuts)
            finally:
                s.close()
        except OSError:
            pass  # a client that has gone is judged by what it says
        finally:
            c.close()

    def drain(self, s):
        out = b""
        while True:
            b = s.recv(65536)
            if not b:
                return out
            out += b

    def pieces(self, s, data, cuts):
        ps = sorted({x % (len(data) + 1) for x in cuts})
        for i, j in zip([0] + ps, ps + [len(data)]):
            s.sendall(data[i:j])
            time.sleep(0.004)

    def close(self):
        self.l.close()
        os.unlink(self.path)
        os.rename(self.path + "~", self.path)


class World:
    def __init__(self, paths, workdir, n_eps=4, sock_eps=True):
        self.paths = paths
        self.dir = workdir
        os.makedirs(workdir, exist_ok=True)
        self.poller = select.epoll()
        self.fds = {}
        self.obs = []  # observations in order: ("req", Req) ("reqclosed", Req) ("cmd", Cmd) ("cmdend", Cmd) ("conn", ep_index)
        self.reqs = []
        self.cmds = []
        self.conn_map = {}
        self.eps = []
        for i in range(n_eps):
            e = Endpoint(self, ep_ip(i))
            self.poller.register(e.sock.fileno(), select.EPOLLIN)
            self.fds[e.sock.fileno()] = ("ep", e)
            self.eps.append(e)
        self.recpath = os.path.join(workdir, "rec")
        self.rec = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM | socket.SOCK_NONBLOCK)
        self.rec.bind(self.recpath)
        self.rec.listen(256)
        self.poller.register(self.rec.fileno(), select.EPOLLIN)
        self.fds[self.rec.fileno()] = ("rec", None)
        self.logpath = os.path.join(workdir, "log")
        self.logsock = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM | socket.SOCK_NONBLOCK)
        self.logsock.bind(self.logpath)
        self.syslog = []
        self.rundir = os.path.join(workdir, "run")
        self.home = os.path.join(workdir, "home")
        os.makedirs(self.home, exist_ok=True)
        self.conf = os.path.join(workdir, "pizauth.conf")
        self.errpath = os.path.join(workdir, "stderr")
        self.proc = None
        self.spid = None
        self.vc = None
        self.nhello = 0
        self.nspawn_base = 0
        self.clock0 = None
        self.nclients = 0
        self.tls_peers = []
        self.tls_ctx = {}
        self.tls_days = 36500
        self.extra_env = {}
        self.relative = False
        self.auto_cmd = None
        self.starts = 0
        self.cli_wall = 0.0

    # ---- io ----
    def add(self, sock, tag, obj):
        sock.setblocking(False)
        self.poller.register(sock.fileno(), select.EPOLLIN | select.EPOLLRDHUP)
        self.fds[sock.fileno()] = (tag, obj)

    def drop(self, sock):
        fd = sock.fileno()
        if fd >= 0 and fd in self.fds:
            del self.fds[fd]
            try:
                self.poller.unregister(fd)
            except (OSError, ValueError):
                pass
        sock.close()

    def pump(self, timeout=0.0):
        """Process everything that is ready; returns the number of events handled."""
        n = 0
        first = True
        self.drain_syslog()  # a full socket would block the server
        while True:
            try:
                evs = self.poller.poll(timeout if first else 0)
            except InterruptedError:
                evs = []
            first = False
            if not evs:
                break
            for fd, ev in evs:
                if fd not in self.fds:
                    continue
                n += 1
                tag, obj = self.fds[fd]
                getattr(self, "_ev_" + tag)(obj, ev)
        if self.vc:
            for kind, ip, port in self.vc.connects():
                n += 1
                for i, e in enumerate(self.eps):
                    if e.ipn == ip and e.port == port:
                        self.obs.append(("conn", i))
                        break
                else:
                    self.obs.append(("conn", ("other", kind, ip, port)))
        return n

    def _ev_ep(self, ep, ev):
        while True:
            try:
                s, _ = ep.sock.accept()
            except (BlockingIOError, InterruptedError):
                return
            except OSError:
                return
            if ep.tls:
                t = TlsPeer(s, ep)
                self.tls_peers.append(t)
                if ep.tls == "close":
                    s.close()
                else:
                    self.add(s, "tls", t)
                continue
            r = Req(s, ep, len(self.reqs))
            self.reqs.append(r)
            self.add(s, "req", r)

    def tls_context(self, ep, mode):
        k = (ep.ip, mode, self.tls_days)
        if k not in self.tls_ctx:
            self.tls_ctx[k] = make_context(self.dir, ep.ip, mode, self.tls_days)
        return self.tls_ctx[k]

    def _ev_tls(self, t, ev):
        while True:
            try:
                d = t.sock.recv(65536)
            except (BlockingIOError, InterruptedError):
                return
            except OSError:
                d = b""
            if not d:
                self.drop(t.sock)
                return
            out, end = t.feed(d)
            try:
                if out:
                    t.sock.setblocking(True)
                    t.sock.settimeout(20)
                    t.sock.sendall(out)
                    t.sock.setblocking(False)
                if end == "rst":
                    t.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            except OSError:
                end = end or "fin"
            if end == "rst":
                self.drop(t.sock)
                return
            if end:
                try:
                    t.sock.shutdown(socket.SHUT_WR)
                except OSError:
                    pass

    def _ev_req(self, r, ev):
        while True:
            try:
                d = r.sock.recv(65536)
            except (BlockingIOError, InterruptedError):
                return
            except OSError:
                d = b""
            if not d:
                r.closed = True
                self.drop(r.sock)
                self.obs.append(("reqclosed", r))
                return
            r.buf += d
            if r.parse():
                self.obs.append(("req", r))

    def _ev_rec(self, _, ev):
        while True:
            try:
                s, _a = self.rec.accept()
            except (BlockingIOError, InterruptedError, OSError):
                return
            c = Cmd(s, len(self.cmds))
            self.cmds.append(c)
            self.add(s, "cmd", c)

    def _ev_cmd(self, c, ev):
        while True:
            try:
                d = c.sock.recv(65536)
            except (BlockingIOError, InterruptedError):
                return
            except OSError:
                d = b""
            if not d:
                c.ended = True
                self.drop(c.sock)
                if c.ready:
                    self.obs.append(("cmdend", c))
                return
            c.buf += d
            if not c.ready and c.parse():
                self.nhello += 1
                self.obs.append(("cmd", c))

    def _ev_cli(self, c, ev):
        while True:
            try:
                d = c.sock.recv(65536)
            except (BlockingIOError, InterruptedError):
                return
            except ConnectionResetError:
                d = b""
                c.rst = True
            except OSError:
                d = b""
            if not d:
                c.eof = True
                self.drop(c.sock)
                return
            c.buf += d

    def _ev_pipe(self, c, ev):
        while True:
            try:
                d = os.read(c.fd, 65536)
            except (BlockingIOError, InterruptedError):
                return
            except OSError:
                d = b""
            if not d:
                c.eof = True
                del self.fds[c.fd]
                self.poller.unregister(c.fd)
                return
            c.buf += d

    # ---- server ----
    def env(self):
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "XDG_RUNTIME_DIR": self.rundir, "HOME": self.home,
             "TZ": "UTC", "SHELL": self.paths["recsh"], "PZ_REC": self.recpath, "RUST_BACKTRACE": "0"}
        e.update(self.extra_env)
        return {k: v for k, v in e.items() if v is not None}

    def start(self, conf_text, args=("-d",), verbose=2, clock=None, wait=True):
        """Start a server. conf_text: str or bytes. Returns True if it came up, False if it exited."""
        assert self.proc is None
        if conf_text is not None:
            self.write_conf(conf_text)
        self.starts += 1
        kw = clock or self.clock0 or {}
        if self.vc is not None:
            kw = dict(mono=self.vc.get("mono"), boot=self.vc.get("boot"), real=self.vc.get("real"))
            self.vc.close()
        self.vc = VClock(os.path.join(self.dir, "shm%d" % self.starts), **kw)
        self.nhello = 0
        env = self.env()
        env["LD_PRELOAD"] = self.paths["shim"]
        env["PZ_SHM"] = self.vc.path
        env["PZ_LOG"] = self.logpath
        env["PZ_TRAPS"] = self.paths["traps"]
        cmd = [self.paths["bin"], "server", "-c", self.conf if not self.relative else os.path.basename(self.conf), *args, *(["-" + "v" * verbose] if verbose else [])]
        self.errf = open(self.errpath, "ab")
        self.daemon = "-d" not in args
        self.proc = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=self.errf, stderr=self.errf,
                                     cwd=self.dir, start_new_session=True)
        self.errf.close()
        if not wait:
            return True
        sock = os.path.join(self.rundir, "pizauth", "pizauth.sock")
        t0 = time.monotonic()
        while True:
            if self.proc.poll() is not None and not (self.daemon and self.proc.returncode == 0):
                rc = self.proc.returncode
                self.proc = None
                self.exit_code = rc
                return False
            if os.path.exists(sock):
                s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
                try:
                    s.connect(sock)
                    # Is it this server (another one might be listening)?
                    peer = struct.unpack("iII", s.getsockopt(socket.SOL_SOCKET, socket.SO_PEERCRED, 12))[0]
                    s.close()
                    if self.vc.get("pid") and (self.daemon or peer == self.vc.get("pid")):
                        break
                except OSError:
                    s.close()
            if time.monotonic() - t0 > HARD_WALL:
                raise HarnessError("server did not come up")
            time.sleep(0.0015)
        self.spid = self.vc.get("pid")
        self.sborn = self._born()
        self.settle()
        return True

    def write_conf(self, text):
        if isinstance(text, str):
            text = text.encode()
        tmp = self.conf + ".tmp"
        with open(tmp, "wb") as f:
            f.write(text)
        os.rename(tmp, self.conf)

    def alive(self):
        if self.spid is None:
            return False
        if not self.daemon:
            return self.proc is not None and self.proc.poll() is None
        try:
            with open("/proc/%d/stat" % self.spid) as f:
                if f.read().rsplit(")", 1)[1].split()[0] not in "ZX":
                    return True
            # The other threads can outlive the first one, and hold the sockets open.
            return len(os.listdir("/proc/%d/task" % self.spid)) > 1
        except OSError:
            return False

    def _born(self):
        try:
            with open("/proc/%d/stat" % self.spid) as f:
                return f.read().rsplit(")", 1)[1].split()[19]
        except (OSError, IndexError):
            return None

    def stop(self, sig=signal.SIGKILL):
        # Never 0 (that's the process group), nor another process that has got the same number.
        if self.spid and self.sborn is not None and self._born() == self.sborn:
            try:
                os.kill(self.spid, sig)
            except OSError:
                pass
        if self.proc is not None:
            try:
                self.proc.wait(20)
            except subprocess.TimeoutExpired:
                self.proc.kill()
                self.proc.wait()
        if self.daemon and self.spid:
            t0 = time.monotonic()
            while os.path.exists("/proc/%d" % self.spid) and self.alive():
                time.sleep(0.002)
                if time.monotonic() - t0 > 20:
                    raise HarnessError("daemon does not die")
        self.proc = None
        self.spid = None

    def close(self):
        try:
            if self.proc is not None or self.spid:
                self.stop()
            elif self.vc is not None and self.vc.get("pid"):
                pass
        finally:
            for c in self.cmds:
                if not c.ended and c.pid:
                    try:
                        os.kill(c.pid, signal.SIGKILL)
                    except OSError:
                        pass
            for fd, (tag, obj) in list(self.fds.items()):
                try:
                    os.close(fd) if tag == "pipe" else None
                except OSError:
                    pass
            for r in self.reqs + self.tls_peers:
                r.sock.close()
            for c in self.cmds:
                c.sock.close()
            for e in self.eps:
                e.sock.close()
            self.rec.close()
            self.logsock.close()
            self.poller.close()
            if self.vc:
                self.vc.close()
            shutil.rmtree(self.dir, ignore_errors=True)

    def stderr(self):
        try:
            with open(self.errpath, "rb") as f:
                return f.read().decode("utf-8", "replace")
        except OSError:
            return ""

    def drain_syslog(self):
        while True:
            try:
                self.syslog.append(self.logsock.recv(65536).decode("utf-8", "replace"))
            except (BlockingIOError, InterruptedError, OSError):
                break
        return self.syslog

    def listening(self):
        """[(ip, port)] the server's process listens on (TCP)."""
        ino = set()
        try:
            for fd in os.listdir("/proc/%d/fd" % self.spid):
                try:
                    l = os.readlink("/proc/%d/fd/%s" % (self.spid, fd))
                except OSError:
                    continue
                if l.startswith("socket:["):
                    ino.add(l[8:-1])
        except OSError as e:
            raise HarnessError("cannot look at the server's files: %s" % e)
        out = []
        for fn in ("tcp", "tcp6"):
            try:
                with open("/proc/%d/net/%s" % (self.spid, fn)) as f:
                    for l in f.read().splitlines()[1:]:
                        w = l.split()
                        if w[3] == "0A" and w[9] in ino:
                            ip, port = w[1].split(":")
                            out.append((socket.inet_ntoa(struct.pack("<I", int(ip, 16))) if fn == "tcp" else ip, int(port, 16)))
            except OSError:
                pass
        return out

    # ---- quiescence ----
    def sample(self):
        """State of all server threads, or None when something is running."""
        pid = self.spid
        out = []
        try:
            tids = os.listdir("/proc/%d/task" % pid)
            for t in tids:
                with open("/proc/%d/task/%s/stat" % (pid, t), "rb") as f:
                    st = f.read().rsplit(b")", 1)[1].split(None, 1)[0]
                if st not in (b"S",):
                    if st in (b"Z", b"X"):
                        continue
                    return None
                with open("/proc/%d/task/%s/schedstat" % (pid, t), "rb") as f:
                    out.append((t, f.read()))
        except (OSError, IndexError):
            return None
        return tuple(sorted(out))

    def resources(self):
        """How many threads, open files and child processes the server has."""
        p = "/proc/%d/" % self.spid
        kids = 0
        ts = os.listdir(p + "task")
        for t in ts:
            try:
                with open(p + "task/%s/children" % t) as f:
                    kids += len(f.read().split())
            except OSError:
                pass
        files = 0
        for f in os.listdir(p + "fd"):
            try:
                # the shim pools one of these per thread there has ever been at a time
                files += os.readlink(p + "fd/" + f) != "anon_inode:[eventfd]"
            except OSError:
                pass
        return {"threads": len(ts), "files": files, "children": kids}

    def cpu(self):
        try:
            with open("/proc/%d/stat" % self.spid) as f:
                p = f.read().rsplit(")", 1)[1].split()
            return (int(p[11]) + int(p[12])) / 100.0
        except (OSError, IndexError, TypeError):
            return 0.0

    def _peers_quiet(self):
        vc = self.vc
        if not vc.acked():
            return False
        if vc.get("pend") != vc.get("held"):
            return False
        if vc.get("spawned") != self.nhello:
            return False
        for c in self.cmds:
            if c.told is not None and not c.ended:
                return False
            if c.ended and not getattr(c, "gone", False):
                try:
                    with open("/proc/%d/stat" % c.pid) as f:
                        st = f.read().rsplit(")", 1)[1].split()
                    if st[0] not in "ZX" and c.told is not None:
                        return False
                    if st[0] in "ZX":
                        c.gone = True  # a zombie nobody waits for stays one; thread samples show if somebody does
                except (OSError, IndexError):
                    c.gone = True
        for r in self.reqs:
            if r.answered and not r.closed and r.sock.fileno() >= 0:
                b = bytearray(4)
                try:
                    fcntl.ioctl(r.sock.fileno(), SIOCOUTQ, b)
                    if struct.unpack("<i", b)[0] != 0:
                        return False
                except OSError:
                    pass
        return True

    def settle(self, stable=2, gap=0.0006):
        """Wait until nothing moves any more. Raises on server death? No: returns False if the server is dead."""
        prev = None
        cnt = 0
        t0 = time.monotonic()
        cpu0 = None
        while True:
            n = self.pump(0)
            if n:
                if self.auto_cmd:
                    self.auto_cmd()
                prev, cnt = None, 0
            if not self.alive():
                self.pump(0)
                return False
            if not n and self._peers_quiet():
                s = self.sample()
                if s is not None and s == prev:
                    cnt += 1
                    if cnt >= stable:
                        if self.pump(0) == 0:
                            return True
                        prev, cnt = None, 0
                else:
                    cnt = 0
                prev = s
            else:
                prev, cnt = None, 0
            el = time.monotonic() - t0
            if el > 3:
                if cpu0 is None:
                    cpu0 = self.cpu()
                elif self.cpu() - cpu0 > 15:
                    raise Livelock("server used 15 s of CPU time without becoming idle")
            if el > HARD_WALL:
                raise HarnessError("no quiescence: " + self.debug_state())
            time.sleep(gap if el < 0.5 else 0.005)

    def debug_state(self):
        vc = self.vc
        d = {k: vc.get(k) for k in ("epoch", "ack", "pend", "held", "spawned", "threads")}
        d["hello"] = self.nhello
        d["cmds"] = [(c.pid, c.told, c.ended) for c in self.cmds if not c.ended]
        try:
            d["tasks"] = [open("/proc/%d/task/%s/stat" % (self.spid, t)).read()[:60]
                          for t in os.listdir("/proc/%d/task" % self.spid)]
        except OSError:
            pass
        return repr(d)

    def take(self):
        o, self.obs = self.obs, []
        return o

    # ---- peers' actions ----
    def answer(self, r, data, close="fin"):
        """Send data on the held request r. close: fin | rst | keep."""
        r.answered = True
        if r.closed:
            return
        try:
            if data:
                r.sock.setblocking(True)
                r.sock.settimeout(20)
                r.sock.sendall(data)
                r.sock.setblocking(False)
        except OSError:
            pass
        if close == "fin":
            try:
                r.sock.shutdown(socket.SHUT_WR)
            except OSError:
                pass
        elif close == "rst":
            try:
                r.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            except OSError:
                pass
            r.closed = True
            self.drop(r.sock)
            time.sleep(0.003)

    def end_cmd(self, c, code):
        """code: 0..250 exit status, 255 die by SIGKILL, 254 lots of output then exit 0."""
        if c.ended or c.told is not None:
            return
        c.told = code
        try:
            c.sock.send(bytes([code]))
        except OSError:
            pass

    # ---- clients ----
    def cli(self, args, stdin=None, stdout=None, env=None, allow_hang=False):
        """Run the command line client while keeping the peers served.
        Returns (rc, stdout bytes, stderr str); rc None if it hung while everything else was idle."""
        t_in = time.monotonic()
        e = self.env()
        if env:
            e.update(env)
            e = {k: v for k, v in e.items() if v is not None}
        si = subprocess.DEVNULL
        inf = None
        if stdin is not None:
            inf = tempfile.TemporaryFile(dir=self.dir)
            inf.write(stdin)
            inf.seek(0)
            si = inf
        p = subprocess.Popen([self.paths["bin"], *args], env=e, stdin=si,
                             stdout=subprocess.PIPE if stdout is None else stdout, stderr=subprocess.PIPE, cwd=self.dir)
        chans = []
        for f in ([p.stdout] if stdout is None else []) + [p.stderr]:
            h = HttpClient(None)
            h.fd = f.fileno()
            os.set_blocking(h.fd, False)
            self.poller.register(h.fd, select.EPOLLIN)
            self.fds[h.fd] = ("pipe", h)
            chans.append(h)
        t0 = time.monotonic()
        idle_since = None
        prev = None
        hung = False
        while not all(h.eof for h in chans):
            n = self.pump(0.02)
            if n and self.auto_cmd:
                self.auto_cmd()
            now = time.monotonic()
            if now - t0 > 2:
                # is everything asleep, so that this client can never be answered?
                s = self.sample() if self.alive() else ("dead",)
                if s is not None and s == prev and not n:
                    if idle_since is None:
                        idle_since = now
                    elif now - idle_since > 4 and self._proc_idle(p.pid):
                        hung = True
                        break
                else:
                    idle_since = None
                prev = s
                if now - t0 > HARD_WALL:
                    p.kill()
                    p.wait()
                    raise HarnessError("client does not end: %r" % (args,))
        for h in chans:
            if not h.eof and h.fd in self.fds:
                del self.fds[h.fd]
                self.poller.unregister(h.fd)
        if hung and not allow_hang:
            p.kill()
        elif hung:
            p.kill()
        p.wait()
        if stdout is None:
            p.stdout.close()
        p.stderr.close()
        if inf:
            inf.close()
        self.cli_wall += time.monotonic() - t_in
        out = chans[0].buf if stdout is None else b""
        return (None if hung else p.returncode), out, chans[-1].buf.decode("utf-8", "replace")

    def cli_many(self, argss):
        """Several clients at once."""
        ps = []
        for args in argss:
            of, ef = tempfile.TemporaryFile(dir=self.dir), tempfile.TemporaryFile(dir=self.dir)
            ps.append((subprocess.Popen([self.paths["bin"], *args], env=self.env(), stdin=subprocess.DEVNULL, stdout=of, stderr=ef, cwd=self.dir), of, ef))
        t0 = time.monotonic()
        idle = None
        prev = None
        while any(p.poll() is None for p, _, _ in ps):
            n = self.pump(0.005)
            if n and self.auto_cmd:
                self.auto_cmd()
            now = time.monotonic()
            if now - t0 > 2:
                s = self.sample() if self.alive() else ("dead",)
                if s is not None and s == prev and not n:
                    idle = idle or now
                    if now - idle > 6 and all(p.poll() is not None or self._proc_idle(p.pid) for p, _, _ in ps):
                        break
                else:
                    idle = None
                prev = s
            if now - t0 > HARD_WALL:
                for p, _, _ in ps:
                    p.kill()
                    p.wait()
                raise HarnessError("clients do not end")
        out = []
        for p, of, ef in ps:
            rc = p.poll()
            if rc is None:
                p.kill()
                p.wait()
            of.seek(0)
            ef.seek(0)
            out.append((rc, of.read(), ef.read().decode("utf-8", "replace")))
            of.close()
            ef.close()
        return out

    def _proc_idle(self, pid):
        try:
            with open("/proc/%d/stat" % pid) as f:
                return f.read().rsplit(")", 1)[1].split()[0] == "S"
        except OSError:
            return True

    def cli_start(self, args, stdin=None):
        """Starts a client and waits until it waits itself."""
        inf = subprocess.DEVNULL
        if stdin is not None:
            inf = tempfile.TemporaryFile(dir=self.dir)
            inf.write(stdin)
            inf.seek(0)
        of, ef = tempfile.TemporaryFile(dir=self.dir), tempfile.TemporaryFile(dir=self.dir)
        p = subprocess.Popen([self.paths["bin"], *args], env=self.env(), stdin=inf, stdout=of, stderr=ef, cwd=self.dir)
        if stdin is not None:
            inf.close()
        prev, n, t0 = None, 0, time.monotonic()
        while p.poll() is None and n < 4 and time.monotonic() - t0 < 20:
            self.pump(0)
            try:
                with open("/proc/%d/stat" % p.pid) as f:
                    s = f.read().rsplit(")", 1)[1].split()
                    s = (s[0], s[11], s[12])
            except OSError:
                s = None
            n = n + 1 if s == prev and s and s[0] == "S" else 0
            prev = s
            time.sleep(0.0008)
        return p, of, ef, args

    def cli_end(self, h):
        p, of, ef, args = h
        t0 = time.monotonic()
        while p.poll() is None and time.monotonic() - t0 < 20:
            if self.pump(0.003) and self.auto_cmd:
                self.auto_cmd()
        rc = p.poll()
        if rc is None:
            p.kill()
            p.wait()
        of.seek(0)
        ef.seek(0)
        out = (rc, of.read(), ef.read().decode("utf-8", "replace"))
        of.close()
        ef.close()
        return out

    REQ = {}

    def request_of(self, args):
        """What the client sends for these arguments, learnt from the client itself."""
        k = tuple(args)
        if k not in World.REQ:
            d = tempfile.mkdtemp(dir=self.dir)
            try:
                os.chmod(d, 0o700)
                os.mkdir(os.path.join(d, "pizauth"), 0o700)
                l = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
                l.bind(os.path.join(d, "pizauth", "pizauth.sock"))
                l.listen(1)
                l.settimeout(20)
                e = self.env()
                e["XDG_RUNTIME_DIR"] = d
                p = subprocess.Popen([self.paths["bin"], *args], env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=self.dir)
                try:
                    s, _ = l.accept()
                    s.settimeout(20)
                    out = b""
                    while True:
                        b = s.recv(65536)
                        if not b:
                            break
                        out += b
                    s.close()
                    World.REQ[k] = out
                except OSError:
                    World.REQ[k] = None
                finally:
                    p.kill()
                    p.wait()
                    l.close()
            finally:
                shutil.rmtree(d, ignore_errors=True)
        return World.REQ[k]

    def proxy(self):
        return Proxy(os.path.join(self.rundir, "pizauth", "pizauth.sock"))

    def raw_open(self, data):
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        s.settimeout(20)
        s.connect(os.path.join(self.rundir, "pizauth", "pizauth.sock"))
        s.sendall(data)
        return s

    def raw_sock(self, data, shut=True, read=True):
        """Raw bytes to the command socket; returns reply bytes, or None if the client leaves without reading."""
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        s.settimeout(20)
        try:
            s.connect(os.path.join(self.rundir, "pizauth", "pizauth.sock"))
            try:
                s.sendall(data)
                if shut:
                    s.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            if not read:
                return None
            out = b""
            while True:
                try:
                    d = s.recv(65536)
                except ConnectionResetError:
                    break
                except socket.timeout:
                    return False
                if not d:
                    break
                out += d
            return out
        finally:
            s.close()

    def http_open(self, port, ip="127.0.0.1"):
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        s.settimeout(20)
        s.connect((ip, port))
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        c = HttpClient(s)
        self.add(s, "cli", c)
        return c

    def http_send(self, c, data, until=None):
        """Send data (bytes) as far as the peer takes it."""
        mv = memoryview(data)
        t0 = time.monotonic()
        while mv and not c.eof:
            try:
                n = c.sock.send(mv[:65536])
                mv = mv[n:]
            except (BlockingIOError, InterruptedError):
                self.pump(0.005)
                if self.auto_cmd:
                    self.auto_cmd()
                if time.monotonic() - t0 > 15:
                    return False
            except OSError:
                self.pump(0.001)
                return False
        return True

    def http_wait(self, c, done=None, wall=20.0):
        """Wait until the response is complete (EOF, or done(buf)); False if the server stays idle without answering."""
        t0 = time.monotonic()
        prev, idle = None, None
        while not c.eof and not (done and done(c.buf)):
            n = self.pump(0.01)
            if n and self.auto_cmd:
                self.auto_cmd()
            now = time.monotonic()
            if now - t0 > 1:
                s = self.sample() if self.alive() else ("dead",)
                if s is not None and s == prev and not n:
                    idle = idle or now
                    if now - idle > 2:
                        return False
                else:
                    idle = None
                prev = s
            if now - t0 > HARD_WALL:
                raise HarnessError("http client stuck")
        return True

    def http_close(self, c):
        if c.sock.fileno() >= 0:
            self.drop(c.sock)
