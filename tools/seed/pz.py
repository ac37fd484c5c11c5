"""Helper for the demonstrations: a real pizauth server in a scratch directory, with a local token server."""
import atexit, http.client, http.server, json, os, re, shutil, socket, subprocess, sys, tempfile, threading, time
from urllib.parse import parse_qsl, urlsplit, quote

BIN = os.path.abspath("target/debug/pizauth")


class TokenServer:
    """answer(form, n) -> (status, body) | None (close without an answer); body is a dict or a string."""

    def __init__(self, answer=None):
        self.reqs = []
        self.times = []
        self.answer = answer or (lambda form, n: (200, dict(access_token="AT%d" % n, refresh_token="RT%d" % n, token_type="Bearer", expires_in=3600)))
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def do_POST(self):
                form = dict(parse_qsl(self.rfile.read(int(self.headers.get("Content-Length", 0))).decode(), keep_blank_values=True))
                outer.reqs.append(form)
                outer.times.append(time.monotonic())
                r = outer.answer(form, len(outer.reqs))
                self.close_connection = True
                if r is None:
                    return
                st, b = r
                b = (json.dumps(b) if isinstance(b, (dict, list)) else b).encode()
                try:
                    self.send_response(st)
                    self.send_header("Content-Length", str(len(b)))
                    self.send_header("Connection", "close")
                    self.end_headers()
                    self.wfile.write(b)
                except OSError:
                    pass

            def log_message(self, *a):
                pass

        self.srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.srv.daemon_threads = True
        self.port = self.srv.server_address[1]
        self.url = "http://127.0.0.1:%d/t" % self.port
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()

    def refreshes(self):
        return [r for r in self.reqs if r.get("grant_type") == "refresh_token"]


def tok(n, **kw):
    d = dict(access_token="AT%d" % n, refresh_token="RT%d" % n, token_type="Bearer", expires_in=3600)
    d.update(kw)
    return (200, {k: v for k, v in d.items() if v is not None})


class Pz:
    def __init__(self, conf=None, **kw):
        self.dir = tempfile.mkdtemp(prefix="pzdemo")
        atexit.register(self.close)
        self.run = os.path.join(self.dir, "run")
        os.mkdir(self.run)
        self.conf = os.path.join(self.dir, "pizauth.conf")
        self.env = {k: v for k, v in os.environ.items() if not k.startswith("XDG")}
        self.env.update(XDG_RUNTIME_DIR=self.run, HOME=self.dir, SHELL="/bin/sh", RUST_BACKTRACE="0")
        self.p = None
        if conf is not None:
            self.start(conf, **kw)

    def file(self, n):
        return os.path.join(self.dir, n)

    def lines(self, n):
        try:
            return open(self.file(n)).read().splitlines()
        except FileNotFoundError:
            return []

    def start(self, conf=None, args=("-d", "-v", "-v")):
        if conf is not None:
            self.write(conf)
        self.err = open(self.file("stderr"), "ab")
        self.p = subprocess.Popen([BIN, "server", "-c", self.conf, *args], env=self.env, cwd=self.dir, stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err)
        for _ in range(200):
            if self.cli("status")[0] == 0:
                return
            if self.p.poll() is not None:
                break
            time.sleep(0.05)
        raise SystemExit("server did not start: " + open(self.file("stderr")).read())

    def write(self, conf):
        with open(self.conf, "w") as f:
            f.write(conf.replace("@DIR@", self.dir))

    def cli(self, *args, stdin=b"", timeout=30, **kw):
        r = subprocess.run([BIN, *args], env=kw.pop("env", self.env), input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return r.returncode, r.stdout, r.stderr.decode("utf-8", "replace")

    def reload(self, conf):
        self.write(conf)
        return self.cli("reload")

    def url(self, act, cmd="show"):
        rc, out, err = self.cli(cmd, "--", act)
        m = re.search(r"https?://\S*state=\S*", err)
        return m.group(0) if m else None

    def params(self, act, cmd="show"):
        return dict(parse_qsl(urlsplit(self.url(act, cmd)).query, keep_blank_values=True))

    def get(self, target, host, port, headers=()):
        s = socket.create_connection(("127.0.0.1", port), timeout=20)
        s.sendall(("GET %s HTTP/1.1\r\nHost: %s\r\n%s\r\n" % (target, host, "".join("%s: %s\r\n" % h for h in headers))).encode())
        return recv_all(s)

    def redirect(self, p, code="CODE", **kw):
        """Follow the redirect that the parameters p of an authorisation URL ask for."""
        u = urlsplit(p["redirect_uri"])
        q = "&".join("%s=%s" % (k, quote(v, safe="")) for k, v in dict(dict(state=p["state"], code=code), **kw).items() if v is not None)
        return self.get("/?" + q, "%s:%d" % (u.hostname, u.port), u.port)

    def auth(self, act, code="CODE"):
        self.redirect(self.params(act), code)
        wait(lambda: self.cli("show", "-u", "--", act)[0] == 0, "no token for %s" % act)

    def show(self, act):
        rc, out, err = self.cli("show", "-u", "--", act)
        return out.decode().rstrip("\n") if rc == 0 else None

    def alive(self):
        return self.cli("status")[0] == 0

    def kill(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None

    def close(self):
        self.kill()
        shutil.rmtree(self.dir, ignore_errors=True)


def recv_all(s):
    b = b""
    try:
        while True:
            d = s.recv(65536)
            if not d:
                break
            b += d
    except OSError:
        pass
    s.close()
    return b


def wait(f, what, secs=20):
    t = time.monotonic()
    while time.monotonic() - t < secs:
        if f():
            return
        time.sleep(0.05)
    bad(what)


def bad(msg):
    print("FAIL: " + msg)
    sys.stdout.flush()
    sys.exit(1)


def check(ok, msg):
    if not ok:
        bad(msg)


def account(name, ts, extra=""):
    return 'account "%s" { auth_uri = "http://auth.example/a"; client_id = "cid"; token_uri = "%s"; %s }\n' % (name, ts if isinstance(ts, str) else ts.url, extra)


HEAD = 'https_listen = none;\n'
EVENTS = 'token_event_cmd = "echo $PIZAUTH_ACCOUNT $PIZAUTH_EVENT >> @DIR@/events";\n'
ERRORS = 'error_notify_cmd = "echo $PIZAUTH_ACCOUNT $PIZAUTH_MSG >> @DIR@/errors";\n'
NOTIFY = 'auth_notify_cmd = "echo $PIZAUTH_ACCOUNT $PIZAUTH_URL >> @DIR@/notify";\n'
