"""Runs one generated scenario against a real server and compares it, step by step, with the reference model.

The model (class Acct, methods named m_*) describes the documented behaviour of pizauth; it is stepped by the same
operations as the server and by the observed actions of the server (token requests, commands run), each of which it
must have predicted.
"""
import base64, hashlib, itertools, json, os, random, re, signal, socket, ssl, struct, sys, time
from urllib.parse import parse_qsl, quote, urlsplit

from . import codec, conf as C, conflang
from .world import HarnessError, Livelock, World
from .vclock import NS

MS = 1_000_000
MAX_S = 2 ** 63 - 1
PRE = 40 * MS  # how close before a due time the clock is stopped to see that nothing happens yet
POST = 2 * MS  # how far after
TOUCH = 6 * 3600 * NS


class Violation(Exception):
    """What was observed is not what was predicted; cat says which aspect of behaviour that was."""

    def __init__(self, msg, cat="state"):
        Exception.__init__(self, msg)
        self.cat = cat


# aspect by the function that noticed the difference (innermost first)
SITE_CAT = {"check_url": "url", "check_pending_msg": "url", "op_status": "status", "check_time": "status", "info": "info", "op_info": "info",
            "check_secrets": "secret", "op_dump": "dump", "op_restore": "restore", "op_rawsock": "sock", "op_junk": "http", "op_flood": "http", "op_crowd": "sock", "check_status": "status",
            "op_redir": "redirect", "m_redirect": "redirect", "op_show": "state", "op_refresh": "state", "op_revoke": "state", "loose_show": "state",
            "op_unknown": "cli", "o_conn": "tokreq", "o_req": "tokreq", "o_reqclosed": "tokreq", "o_cmd": "cmd", "o_cmdend": "cmdend",
            "overdue": "late", "dead": "dead", "bad_reload": "badreload", "op_reload": "reload", "op_server2": "life", "op_restart": "life",
            "start": "life", "final_checks": "dead", "window": "late", "finals": "cmd:error"}


class Stop(Exception):
    """The rest of the scenario cannot be judged (counted, not a verdict)."""


class Acct:
    def __init__(self, name, gen):
        self.name = name
        self.gen = gen
        self.st = "E"
        self.reset()

    def reset(self):
        self.url = self.state = self.chal = self.redirect = None
        self.url_seen = False
        self.last_notif = None
        self.at = self.rt = None
        self.obtained = self.expiry = None
        self.ongoing = False
        self.fails = 0
        self.lra = None


class Flight:
    """A code exchange or refresh under way."""

    def __init__(self, **kw):
        self.req = None
        self.phase = "conn"  # conn, req, held, sleep, final, cmd, done
        self.attempts = 0
        self.conn_seen = False
        self.was = "conn"
        self.__dict__.update(kw)


class Expect:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.may = False
        self.__dict__.update(kw)

    def __repr__(self):
        d = {k: v for k, v in self.__dict__.items() if k not in ("flight",) and not callable(v)}
        return repr(d)


def hostpart(u):
    """The host as it is written in a URL."""
    h = u.hostname.lower()
    return "[" + h + "]" if ":" in h else h


def lst(x):
    return x if x is not None else []


class Engine:
    FRESH_STATES = set()
    FRESH_CHALS = set()

    def __init__(self, scn, paths, workdir, fresh=None):
        self.scn = scn
        self.n_eps = scn.get("eps", 4)
        self.w = World(paths, workdir, n_eps=self.n_eps)
        self.w.auto_cmd = self.auto_cmds
        self.stats = {}
        self.log = []
        self.confs = [self.materialize(c) for c in scn["confs"]]
        self.n_confs = len(self.confs)
        self.cfg = None
        self.acts = {}
        self.gen = 0
        self.flights = []
        self.expect = []
        self.logpos = 0, 0
        self.base = None
        self.events = []  # queue of (batch, account, event)
        self.ev_running = None
        self.batch = 0
        self.cmds = {}  # Cmd -> dict(kind, acct, flight)
        self.modes = {"notify": "auto", "error": "auto", "event": "auto", "transient": "auto"}
        self.dumps = []
        self.ports = None
        self.lip = {}
        self.secrets = set()
        self.old_states = []
        self.ntok = 0
        self.started = False
        self.text_seen = []
        self.used_texts = []
        self.error_log = []
        self.shell = scn.get("shell", "ok")
        if self.shell == "missing":
            self.w.extra_env["SHELL"] = os.path.join(workdir, "no such shell")
        elif self.shell == "unset":
            self.w.extra_env["SHELL"] = None
        if scn.get("clock"):
            self.w.clock0 = {k: int(v) for k, v in scn["clock"].items()}
        self.args = [] if scn.get("daemon") else ["-d"]
        self.loose_exp = None
        for i, m in (scn.get("tls") or {}).items():
            self.w.eps[int(i) % self.n_eps].tls = m
        self.w.relative = bool(scn.get("rel"))
        if scn.get("tz"):
            self.w.extra_env["TZ"] = scn["tz"]
        if scn.get("tls_days"):
            self.w.tls_days = scn["tls_days"]

    # ---------- helpers ----------
    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def materialize(self, c):
        c = json.loads(json.dumps(c))
        for a in c["accounts"]:
            a["token_uri"] = self.uri(a["token_uri"])
            a["auth_uri"] = self.uri(a["auth_uri"])
        for k in ("http_listen", "https_listen"):
            if isinstance(c.get(k), dict):
                c[k] = "%s:%d" % (self.w.eps[0].ip, c[k]["own"])
        return c

    def render(self, c):
        """The configuration as text: plainly, or (scenario's "layout") in an arbitrary layout."""
        if self.scn.get("layout") is None:
            return C.render(c)
        rng = random.Random("%s/%d" % (self.scn["layout"], len(self.used_texts)))
        return C.layout(C.render_tokens(c, rng), rng)

    def uri(self, u):
        if isinstance(u, dict):
            e = self.w.eps[u["ep"] % self.n_eps]
            return "%s://%s:%d%s" % ("https" if u.get("tls") else "http", e.ip, e.port, u.get("path", "/t"))
        return u

    def ep_of(self, token_uri):
        p = urlsplit(token_uri)
        for i, e in enumerate(self.w.eps):
            if p.hostname == e.ip and p.port == e.port:
                return i
        return None

    def fail(self, msg, cat=None):
        f = sys._getframe(1)
        while cat is None and f is not None:
            cat = SITE_CAT.get(f.f_code.co_name)
            f = f.f_back
        raise Violation(msg, cat or "state")

    @property
    def t(self):
        return self.w.vc.get("boot")

    def new_gen(self):
        self.gen += 1
        return self.gen

    def acfg(self, name):
        for a in reversed(self.cfg["accounts"]):
            if a["name"] == name:
                return a

    def names(self):
        return list(self.acts)

    def pick(self, i):
        n = self.names()
        return n[i % len(n)]

    # ---------- model: state changes ----------
    def m_leave(self, a):
        for e in self.expect:
            if e.kind == "cmd" and e.cmd == "notify" and e.acct == a.name and e.gen == a.gen:
                e.url = a.url

    def m_empty(self, a):
        self.m_leave(a)
        if a.state is not None:
            self.old_states.append(a.state)
        a.reset()
        a.st = "E"
        a.gen = self.new_gen()

    def m_pending(self, a):
        self.m_leave(a)
        if a.state is not None:
            self.old_states.append(a.state)
        a.reset()
        a.st = "P"
        a.gen = self.new_gen()
        a.cfg_at = self.acfg(a.name)
        self.count("pending")
        # the first notification is due at once
        self.m_notify(a)

    def m_notify(self, a):
        a.last_notif = self.t
        if self.cfg.get("auth_notify_cmd") is not None and self.shell == "ok":
            self.expect.append(Expect("cmd", cmd="notify", acct=a.name, gen=a.gen))
            self.count("notify")

    def m_active(self, a, at, rt, exp_ns):
        if a.state is not None:
            self.old_states.append(a.state)
        a.reset()
        a.st = "A"
        a.gen = self.new_gen()
        a.at, a.rt = at, rt
        a.obtained = self.t
        a.expiry = self.t + exp_ns
        self.secrets.add(at)
        if rt:
            self.secrets.add(rt)

    def m_event(self, name, ev):
        self.count("event_" + ev)
        self.events.append((self.batch, name, ev))
        self.m_next_event()

    def m_next_event(self):
        if isinstance(self.ev_running, Expect):
            # not yet observed: events of the same batch may overtake each other
            self.expect.remove(self.ev_running)
            self.ev_running = None
        while self.ev_running is None and self.events:
            if self.cfg.get("token_event_cmd") is None or self.shell != "ok":
                self.events.pop(0)
                self.count("event_dropped")
                continue
            b = self.events[0][0]
            cand = [e for e in self.events if e[0] == b]
            # of one account only the first of the batch may come first
            seen, alt = set(), []
            for e in cand:
                if e[1] not in seen:
                    seen.add(e[1])
                    alt.append(e)
            self.ev_running = Expect("cmd", cmd="event", alts=alt)
            self.expect.append(self.ev_running)

    def m_error(self, name, what):
        self.count("auth_error")
        if self.cfg.get("error_notify_cmd") is not None and self.shell == "ok":
            self.expect.append(Expect("cmd", cmd="error", acct=name, what=what))
        elif self.cfg.get("error_notify_cmd") is None:
            self.expect.append(Expect("log", cmd="log", acct=name, what=what))

    def refresh_due(self, a):
        if a.st != "A" or a.ongoing:
            return None
        c = self.acfg(a.name)
        if a.lra is not None:
            return a.lra + C.timing(self.cfg, c, "refresh_retry")
        return min(a.expiry - C.timing(self.cfg, c, "refresh_before_expiry"),
                   a.obtained + C.timing(self.cfg, c, "refresh_at_least"))

    def notify_due(self, a):
        if a.st != "P" or a.last_notif is None:
            return None
        return a.last_notif + C.secs(self.cfg.get("auth_notify_interval") or "15m") * NS

    def m_start_refresh(self, a):
        """A refresh of a's token starts now."""
        if a.rt is None:
            self.count("drop_no_refresh_token")
            self.m_empty(a)
            self.m_event(a.name, "token_invalidated")
            return
        c = self.acfg(a.name)
        form = [("client_id", c["client_id"]), ("refresh_token", a.rt), ("grant_type", "refresh_token")]
        if c.get("client_secret") is not None:
            form.append(("client_secret", c["client_secret"]))
        a.ongoing = True
        a.lra = self.t
        f = Flight(kind="refresh", name=a.name, gen=a.gen, form=form, token_uri=c["token_uri"], t0=self.t)
        self.m_connect(f)
        self.count("refresh")

    def m_connect(self, f):
        f.phase = "conn"
        f.conn_seen = False
        f.was = "conn"
        f.tconn = self.t
        if f not in self.flights:
            self.flights.append(f)

    def m_valid(self, f):
        a = self.acts.get(f.name)
        if a is None or a.gen != f.gen:
            return None
        if f.kind == "exchange" and a.st != "P":
            return None
        return a

    def m_transport_fail(self, f):
        """No (complete) answer could be got for this attempt."""
        self.count(f.kind + "_transport_fail")
        if f.kind == "exchange":
            f.attempts += 1
            f.req = None
            f.tfail = self.t
            f.phase = "sleep" if f.attempts < 10 else "final"
            return
        a = self.m_valid(f)
        if a is None:
            f.phase = "done"
            self.count("superseded_discarded")
            return
        a.fails += 1
        a.lra = self.t
        if a.fails % 6 == 0 and self.cfg.get("transient_error_if_cmd") is not None:
            if self.shell == "ok":
                f.phase = "cmd"
                self.expect.append(Expect("cmd", cmd="transient", acct=a.name, flight=f))
                self.count("transient_cmd")
            else:
                f.phase = "done"
                self.m_empty(a)
                self.m_event(a.name, "token_invalidated")
            return
        f.phase = "done"
        a.ongoing = False

    def m_verdict(self, f, ok):
        f.phase = "done"
        a = self.m_valid(f)
        if a is None:
            self.count("verdict_discarded")
            return
        if ok:
            a.ongoing = False
        else:
            self.m_empty(a)
            self.m_event(a.name, "token_invalidated")

    def m_refused(self, f, why):
        """The token server said no, or something unusable."""
        self.count(f.kind + "_refused")
        f.phase = "done"
        a = self.m_valid(f)
        if a is None:
            self.count("superseded_discarded")
            return
        self.m_empty(a)
        if f.kind == "exchange":
            self.m_error(a.name, why)
        else:
            self.m_event(a.name, "token_invalidated")

    def m_success(self, f, tok):
        self.count(f.kind + "_success")
        f.phase = "done"
        a = self.m_valid(f)
        if a is None:
            self.count("superseded_discarded")
            self.secrets.add(tok["at"])
            return
        rt = tok["rt"]
        if f.kind == "refresh" and rt == "absent":
            rt = a.rt
        elif rt in ("absent", "other"):
            rt = None
        life = tok["exp"]
        if self.t // NS + life >= MAX_S:
            # the expiry cannot be represented: refresh_at_least is what counts
            life = C.timing(self.cfg, self.acfg(a.name), "refresh_at_least") // NS
            if self.t // NS + life >= MAX_S:
                self.m_refused(f, None)
                return
        self.m_active(a, tok["at"], rt, life * NS)
        self.m_event(a.name, "token_new" if f.kind == "exchange" else "token_refreshed")

    # ---------- observation ----------
    def cmd_kind(self, c):
        if len(c.argv) != 3 or c.argv[1] != "-c":
            self.fail("command run with unexpected arguments %r" % (c.argv,), "cmd:" + "any")
        for kind, key in (("notify", "auth_notify_cmd"), ("error", "error_notify_cmd"), ("event", "token_event_cmd"),
                          ("transient", "transient_error_if_cmd")):
            for cf in self.confs:
                if cf.get(key) == c.argv[2]:
                    return kind, key
        self.fail("unknown command run: %r" % (c.argv[2],))

    def auto_cmds(self):
        for c in self.w.cmds:
            if c.ready and c.told is None and not c.ended:
                try:
                    kind, _ = self.cmd_kind(c)
                except Violation:
                    kind = "notify"
                m = self.modes[kind]
                if m == "hold":
                    continue
                self.w.end_cmd(c, {"auto": 0, "fail": 3, "sig": 255, "loud": 254}.get(m, 0))

    def consume(self, obs=None):
        if obs is None:
            obs = self.w.take()
        # the end of a command may itself have made something due, so it is looked at before what it may have caused
        ended = [o for k, o in obs if k == "cmdend" and o in self.cmds]
        for o in ended:
            self.o_cmdend(o)
        if ended:
            self.fire()
        # likewise the end of a request that was waiting, as different means tell us of these things
        gone = [o for o in obs if o[0] == "reqclosed" and any(f.phase == "held" and f.req is o[1] for f in self.flights)]
        obs = [o for o in obs if o[0] == "conn"] + gone + [o for o in obs if o[0] != "conn" and o not in gone]
        for k, o in obs:
            getattr(self, "o_" + k)(o)
        self.o_log()
        return len(obs)

    def o_log(self):
        es = [e for e in self.expect if e.kind == "log"]
        if not es:
            return
        with open(self.w.errpath, "rb") as f:
            f.seek(self.logpos[0])
            text = f.read().decode("utf-8", "replace") + "\n".join(self.w.drain_syslog()[self.logpos[1]:])
        for e in es:
            if e.acct in text and (e.what or "") in text:
                if len(e.what or "") > 3 and text.count(e.what) > 1 + e.acct.count(e.what):
                    self.fail("the failure of %r is reported more than once: %r" % (e.acct, text[-500:]), "cmd:log")
                self.expect.remove(e)
                self.count("error_logged")

    def logged(self):
        self.logpos = os.path.getsize(self.w.errpath) if os.path.exists(self.w.errpath) else 0, len(self.w.drain_syslog())

    def o_conn(self, i):
        for ph in ("conn", "may-conn"):
            for f in self.flights:
                if f.phase == ph and not f.conn_seen and self.ep_of(f.token_uri) == i:
                    f.conn_seen = True
                    f.was = ph
                    f.phase = "conn"
                    self.m_fail_at_once(f, i)
                    return
        for f in sorted((f for f in self.flights if f.phase == "sleep"), key=lambda f: f.tfail):
            if self.ep_of(f.token_uri) == i:
                d = self.t - f.tfail
                if d < int(4.4 * NS):
                    self.fail("code exchange of %r repeated after only %.3f s" % (f.name, d / NS))
                self.count("exchange_retry")
                self.m_connect(f)
                f.conn_seen = True
                self.m_fail_at_once(f, i)
                return
        self.fail("unexpected connection to token endpoint %r (t=%s)" % (i, self.ts()))

    def m_fail_at_once(self, f, i):
        if not self.w.eps[i].up:
            self.m_transport_fail(f)
        elif self.w.eps[i].tls:
            # no trustworthy server there
            self.count("tls_refused")
            self.m_transport_fail(f)

    def ts(self):
        return "%.3f" % ((self.t - self.t_start) / NS)

    def o_req(self, r):
        p = None
        form = sorted(r.form) if r.form is not None else None
        ep = self.w.eps.index(r.ep)
        r.t = self.t
        near = []
        for f in self.flights:
            if f.phase not in ("conn", "may-conn") or f.req is not None:
                continue
            u = urlsplit(f.token_uri)
            tgt = (u.path or "/") + ("?" + u.query if u.query else "")
            if self.ep_of(f.token_uri) != ep or r.target != tgt:
                continue
            want = list(f.form)
            if f.kind == "exchange":
                ver = [v for k, v in (r.form or []) if k == "code_verifier"]
                if len(ver) == 1:
                    ch = base64.urlsafe_b64encode(hashlib.sha256(ver[0].encode()).digest()).decode().rstrip("=")
                    if ch == f.chal:
                        want.append(("code_verifier", ver[0]))
                        self.secrets.add(ver[0])
            near.append(want)
            if form == sorted(want):
                if p is not None and p.name != f.name:
                    raise Stop("requests of two accounts cannot be told apart")
                if p is None or f.conn_seen and not p.conn_seen:
                    p = f
        if p is not None and not p.conn_seen:
            # the connection was taken for that of another request to the same server
            for q in self.flights:
                if q.phase == "conn" and q.conn_seen and q.req is None and self.ep_of(q.token_uri) == ep:
                    q.conn_seen = False
                    q.phase = q.was
                    p.conn_seen, p.was, p.phase = True, p.phase, "conn"
                    break
            else:
                if p.phase == "may-conn":
                    p = None
        if p is None:
            self.fail("unexpected request at token endpoint %d: %s %s %r; expected one of %r" %
                      (ep, r.method, r.target, r.form, near))
        if r.method != "POST":
            self.fail("token request is a %s" % r.method)
        ct = r.headers.get("content-type", [""])[0]
        if not ct.startswith("application/x-www-form-urlencoded"):
            self.fail("token request has content type %r" % ct)
        p.req = r
        p.phase = "held"
        p.theld = self.t
        r.flight = p

    def o_reqclosed(self, r):
        f = getattr(r, "flight", None)
        if r.answered or f is None:
            return
        if f.phase != "held" or f.req is not r:
            return
        age = self.t - f.theld
        if age < 5 * NS:
            self.fail("%s request of %r given up after %.3f s" % (f.kind, f.name, age / NS))
        self.count("server_side_timeout")
        self.m_transport_fail(f)

    def o_cmd(self, c):
        kind, key = self.cmd_kind(c)
        c.t = self.t
        cur = self.cfg.get(key)
        env_act = c.env.get("PIZAUTH_ACCOUNT")
        if c.argv[2] != cur and c.argv[2] not in [x.get(key) for x in self.before]:
            self.fail("%s is run with a superseded or foreign value %r, configured is %r" % (key, c.argv[2], cur), "cmd:" + kind)
        extra = {"notify": "PIZAUTH_URL", "event": "PIZAUTH_EVENT", "error": "PIZAUTH_MSG", "transient": None}[kind]
        val = c.env.get(extra) if extra else None
        for e in self.expect:
            if e.kind != "cmd" or e.cmd != kind:
                continue
            if kind == "event":
                hit = [x for x in e.alts if x[1] == env_act and x[2] == val]
                if not hit:
                    continue
                self.events.remove(hit[0])
            else:
                if e.acct != env_act:
                    continue
            if kind == "notify":
                a = self.acts.get(e.acct)
                if e.may and getattr(e, "url", None) in (None, val):
                    pass
                elif a is None or a.gen != e.gen:
                    continue
                else:
                    self.check_url(a, val, "auth_notify_cmd")
            if kind == "error":
                if e.acct not in val or (e.what and e.what not in val):
                    self.fail("error_notify_cmd for %r reports %r, which does not mention %r" % (e.acct, val, e.what), "cmd:error")
            self.expect.remove(e)
            info = dict(kind=kind, acct=env_act)
            if kind == "transient":
                e.flight.cmd = c
                info["flight"] = e.flight
            if kind == "event":
                self.ev_running = c
            self.cmds[c] = info
            self.count("cmd_" + kind)
            return
        self.fail("unexpected run of %s for account %r (%s=%r) at t=%s; expected %r" %
                  (key, env_act, extra, val, self.ts(), [e for e in self.expect if e.kind == "cmd"]), "cmd:" + kind)

    def o_cmdend(self, c):
        info = self.cmds.get(c)
        if info is None or getattr(c, "over", False):
            return
        c.over = True
        age = self.t - c.t
        if info["kind"] == "event":
            if c.told is None:
                if age < 10 * NS - 10 * MS:
                    self.fail("token_event_cmd killed after only %.3f s" % (age / NS), "cmd:event")
                self.count("event_killed")
            if self.ev_running is c:
                self.ev_running = None
                self.m_next_event()
        elif info["kind"] == "transient":
            f = info["flight"]
            if c.told is None:
                if age < 180 * NS - 10 * MS:
                    self.fail("transient_error_if_cmd killed after only %.3f s" % (age / NS), "cmd:transient")
                self.count("transient_killed")
            self.m_verdict(f, c.told == 0 or c.told == 254)
        elif c.told is None:
            self.count("notify_killed")

    # ---------- stepping ----------
    def fire(self):
        """Everything due now starts."""
        for a in list(self.acts.values()):
            d = self.refresh_due(a)
            if d is not None and d <= self.t:
                self.m_start_refresh(a)
                self.count("refresh_by_timer")
            d = self.notify_due(a)
            if d is not None and d <= self.t:
                self.m_notify(a)
                self.count("renotify")

    def overdue(self):
        for f in self.flights:
            if f.phase == "held" and self.t - f.theld > 120 * NS:
                self.fail("%s request of %r still waits for an answer after %.0f s" % (f.kind, f.name, (self.t - f.theld) / NS))
            if f.phase == "sleep" and self.t - f.tfail > 8 * NS + 100 * MS:
                self.fail("code exchange of %r (attempt %d failed) not repeated after %.1f s" %
                          (f.name, f.attempts, (self.t - f.tfail) / NS))
            if f.phase == "cmd" and getattr(f, "cmd", None) and f.cmd.told is None and not f.cmd.ended and \
                    self.t - f.cmd.t > 180 * NS + 100 * MS:
                self.fail("transient_error_if_cmd not killed after 3 minutes", "cmd:transient")
        c = self.ev_running
        if c is not None and not isinstance(c, Expect) and c.told is None and self.t - c.t > 31 * NS:
            self.fail("token_event_cmd not killed %.0f s after its start" % ((self.t - c.t) / NS), "cmd:event")

    def missing(self):
        m = [e for e in self.expect if not e.may]
        m += [f for f in self.flights if f.phase == "conn"]
        return m

    def missing_cat(self, m):
        x = m[0]
        return "cmd:" + x.cmd if isinstance(x, Expect) else "tokreq"

    def converge(self):
        grace = 0
        rounds = 0
        while True:
            self.fire()
            ok = self.w.settle()
            if not ok:
                self.dead()
            n = self.consume()
            self.flights = [f for f in self.flights if f.phase != "done"]
            if n:
                grace = 0
                rounds += 1
                if rounds > 3000:
                    raise HarnessError("endless activity")
                continue
            self.auto_cmds()
            m = self.missing()
            if not m:
                if any(c.told is not None and not c.ended for c in self.w.cmds):
                    continue
                # due dates may have been created by what was just observed
                if any(x is not None and x <= self.t for a in self.acts.values() for x in
                       (self.refresh_due(a), self.notify_due(a))):
                    continue
                self.overdue()
                self.logged()
                return
            grace += 1
            if grace > 12:
                self.fail("did not happen (t=%s): %s" % (self.ts(), "; ".join(
                    repr(x) if isinstance(x, Expect) else "%s request of %r to %s" % (x.kind, x.name, x.token_uri) for x in m)),
                    self.missing_cat(m))
            time.sleep(0.01 * grace)

    def dead(self):
        err = self.w.stderr()
        self.fail("server died: " + err[-600:])

    def dues(self):
        out = []
        for a in self.acts.values():
            for d in (self.refresh_due(a), self.notify_due(a)):
                if d is not None:
                    out.append(d)
        t = self.t
        for f in self.flights:
            if f.phase == "held":
                b = f.theld + 30 * NS
                while b <= t:
                    b += 10 * NS
                out.append(b)
            elif f.phase == "sleep":
                for x in (6 * NS, 8 * NS):
                    if f.tfail + x > t:
                        out.append(f.tfail + x)
                        break
            elif f.phase == "cmd" and getattr(f, "cmd", None) is not None and f.cmd.told is None and not f.cmd.ended:
                out.append(f.cmd.t + 180 * NS)
        c = self.ev_running
        if c is not None and not isinstance(c, Expect) and c.told is None:
            for x in (10 * NS, 20 * NS, 30 * NS, 31 * NS):
                if c.t + x > t:
                    out.append(c.t + x)
                    break
        return [x for x in out if t < x < 2 ** 62]

    def jump(self, to):
        d = to - self.t
        if d <= 0:
            return
        self.w.vc.advance(d)

    def finals(self):
        """Exchanges whose last attempt failed: the failure is reported within the usual delay."""
        fs = [f for f in self.flights if f.phase == "final"]
        if not fs:
            return
        t0, wait = self.t, []
        for f in fs:
            f.phase = "done"
            self.flights.remove(f)
        if any(g.name == f.name for f in fs for g in self.flights) or any(x < t0 + 10 * NS for x in self.dues()):
            # something else is due in the window: judge the window as a whole only when it is free
            self.count("final_shared")
        for f in fs:
            a = self.m_valid(f)
            if a is None or any(w[0] is a for w in wait):
                continue
            exp = None
            if self.cfg.get("error_notify_cmd") is not None and self.shell == "ok":
                exp = Expect("cmd", cmd="error", acct=a.name, what=None, may=True)
                self.expect.append(exp)
                self.count("auth_error")
            wait.append((a, a.gen, exp))
        if not wait:
            return self.m_sleep(7 * NS)
        end = t0 + int(8.1 * NS)
        while wait and self.t < end:
            # notifications of these accounts go on until the failure has been noticed
            step = min(end, self.t + 3 * NS, t0 + 6 * NS + 5 * MS if self.t < t0 + 6 * NS else end)
            if any(x is not None and x < step + 50 * MS for x in [self.notify_due(a) for a, _, _ in wait]):
                raise Stop("notification due while the failure is being reported")
            if any(x < step + 50 * MS for x in self.dues()):
                raise Stop("other work due while the failure is being reported")
            self.jump(step)
            self.converge()
            for w in list(wait):
                a, gen, exp = w
                if exp is not None and exp not in self.expect or a.gen != gen:
                    wait.remove(w)
                    if a.gen == gen:
                        self.count("exchange_gave_up")
                        self.m_empty(a)
        for a, gen, exp in wait:
            if exp is not None:
                self.fail("code exchange of %r failed 10 times but no failure was reported" % a.name)
            self.count("exchange_gave_up")
            self.m_empty(a)
        self.converge()

    def m_sleep(self, ns):
        self.advance(ns)

    def advance(self, ns, maxsteps=40):
        target = self.t + ns
        steps = 0
        while True:
            ds = self.dues()
            d = min(ds) if ds else None
            if d is None or d - PRE >= target:
                break
            steps += 1
            if steps > maxsteps:
                return
            if d - PRE > self.t:
                self.jump(d - PRE)
                self.converge()
                continue_from = self.dues()
                if d not in continue_from:
                    continue
            if target < d + POST and target < d:
                return
            self.jump(d + POST)
            self.batch += 1
            self.converge()
            self.finals()
        if target > self.t:
            self.jump(target)
            self.converge()
            self.finals()

    def nudge(self, k=0):
        """Move a little so that timers started by different operations do not coincide, and away from expiries."""
        self.advance((53 + 7 * k) * MS)
        for _ in range(5):
            if any(a.st == "A" and abs(a.expiry - self.t) < 45 * MS for a in self.acts.values()):
                self.advance(100 * MS)
            else:
                break

    # ---------- checks ----------
    def check_url(self, a, url, where):
        if a.st != "P":
            self.fail("%s shows an authorisation URL for %r, which has no pending request" % (where, a.name))
        if a.url is not None:
            if a.url != url:
                self.fail("%s shows URL %r for %r but the pending one is %r" % (where, url, a.name, a.url))
            return
        c = a.cfg_at
        if url is None:
            self.fail("%s has no URL for %r" % (where, a.name))
        u, b = urlsplit(url), urlsplit(c["auth_uri"])
        bn = b.netloc.lower()
        for sch, dp in (("http", ":80"), ("https", ":443")):
            if b.scheme == sch and bn.endswith(dp):
                bn = bn[:-len(dp)]
        if (u.scheme, u.netloc, u.path or "/", u.fragment) != (b.scheme, bn, b.path or "/", b.fragment):
            self.fail("authorisation URL %r is not at auth_uri %r" % (url, c["auth_uri"]))
        qs = u.query
        if b.query:
            if not qs.startswith(b.query + "&"):
                self.fail("authorisation URL %r lost the query of auth_uri %r" % (url, c["auth_uri"]))
            qs = qs[len(b.query) + 1:]
        try:
            pairs = parse_qsl(qs, keep_blank_values=True, strict_parsing=True, errors="strict", separator="&")
        except ValueError as e:
            self.fail("authorisation URL %r has an invalid query: %s" % (url, e))
        st = [v for k, v in pairs if k == "state"]
        eff = C.fields_eff(c)
        std = pairs[:len(pairs) - len(eff)] if eff else pairs
        tail = pairs[len(pairs) - len(eff):] if eff else []
        if [list(x) for x in tail] != eff:
            self.fail("authorisation URL %r does not end in the configured auth_uri_fields %r" % (url, eff))
        d = dict(std)
        if len(d) != len(std):
            self.fail("authorisation URL %r repeats a parameter" % url)
        self.get_ports()
        want = {"access_type": "offline", "code_challenge_method": "S256", "client_id": c["client_id"],
                "response_type": "code", "redirect_uri": self.redirect_uri(c)}
        sc = c.get("scopes")
        if sc:
            want["scope"] = " ".join(sc)
        for k, v in want.items():
            if d.get(k) != v:
                self.fail("authorisation URL %r: %s is %r instead of %r" % (url, k, d.get(k), v))
        extra = set(d) - set(want) - {"state", "code_challenge"}
        if extra:
            self.fail("authorisation URL %r has additional parameters %r" % (url, sorted(extra)))
        s, ch = d.get("state"), d.get("code_challenge")
        if not s or len(s) < 8 or not ch or not re.fullmatch(r"[A-Za-z0-9_-]{43}", ch):
            self.fail("authorisation URL %r: bad state or code challenge" % url)
        if s in self.FRESH_STATES or ch in self.FRESH_CHALS:
            self.fail("authorisation URL %r reuses a state or code challenge" % url)
        self.FRESH_STATES.add(s)
        self.FRESH_CHALS.add(ch)
        a.url, a.state, a.chal = url, s, ch
        a.redirect = want["redirect_uri"]
        self.count("url_checked")

    def redirect_uri(self, c):
        r = c.get("redirect_uri") or "http://localhost/"
        u = urlsplit(r)
        port = self.ports["https" if u.scheme.lower() == "https" else "http"]
        host = hostpart(u)
        return "%s://%s:%s%s%s%s" % (u.scheme.lower(), host, port, u.path or "/", "?" + u.query if u.query else "", "#" + u.fragment if u.fragment else "")

    def get_ports(self):
        if self.ports is None:
            j = self.info()
            si = j["server_info"]
            self.ports = {k: (None if si[k + "_port"] == "none" else int(si[k + "_port"])) for k in ("http", "https")}
            self.pubkey = si.get("https_pub_key")
            self.check_ports()
        return self.ports

    def check_ports(self):
        """What info reports is what is listened on, where the configuration says."""
        want = {}
        for k in ("http", "https"):
            l = self.listening.get(k + "_listen")
            if (l == "none") != (self.ports[k] is None):
                self.fail("%s_listen is %r and info reports port %r" % (k, l, self.ports[k]), "info")
            self.lip[k] = "127.0.0.1"
            if l == "none":
                continue
            ip, _, port = (l or "127.0.0.1:0").rpartition(":")
            if ip != "localhost":
                self.lip[k] = ip
            if port != "0" and int(port) != self.ports[k]:
                self.fail("%s_listen is %r and info reports port %r" % (k, l, self.ports[k]), "info")
            want[(self.lip[k], self.ports[k])] = k
        if (self.pubkey is None) != (self.ports["https"] is None):
            self.fail("https port is %r, its key %r" % (self.ports["https"], self.pubkey), "info")
        have = self.w.listening()
        if any((self.listening.get(k + "_listen") or "").startswith("localhost") for k in ("http", "https")):
            have, want = [x[1] for x in have], {x[1]: y for x, y in want.items()}
        if set(have) != set(want):
            self.fail("listening at %r; configured and reported: %r" % (sorted(have), want), "info")
        self.count("ports_checked")

    def info(self):
        given, self.given = self.given, None
        rc, out, err = self.cli(["info", "-j", "-c", self.w.conf])
        self.given = given
        if rc != 0:
            self.fail("info failed: rc %r %r" % (rc, err))
        try:
            j = json.loads(out)
        except ValueError:
            self.fail("info -j printed %r" % out)
        if not j.get("server_running"):
            self.fail("info says that no server is running")
        for k, v in (("cache_directory", os.path.join(self.w.rundir, "pizauth")), ("config_file", self.w.conf)):
            if j.get(k) != v:
                self.fail("info reports %s %r instead of %r" % (k, j.get(k), v))
        return j

    given = None
    before = []  # configurations replaced a moment ago
    slack = False  # others are at work: when exactly they did something isn't known

    def cli(self, args, **kw):
        if self.given:
            args, (rc, out, err) = self.given
        else:
            rc, out, err = self.w.cli(args, **kw)
        if args[0] not in ("dump",):
            self.text_seen.append((" ".join(args[:1]), out.decode("utf-8", "replace") if args[0] != "show" else "", err))
        if rc is None:
            self.fail("%r hangs although nothing else is going on" % (args,), "dead")
        if "panicked at" in err:
            self.fail("%r panicked: %s" % (args, err[-300:]))
        return rc, out, err

    def urls_in(self, err):
        return [x for x in re.findall(r"https?://\S+", err) if "state=" in x]

    def check_pending_msg(self, a, err, no_url):
        us = self.urls_in(err)
        if no_url:
            if us or "state=" in err:
                self.fail("-u given but %r is shown" % err)
        else:
            if len(us) != 1:
                self.fail("no authorisation URL in %r" % err)
            self.check_url(a, us[0], "the client")

    # ---------- operations ----------
    def run(self):
        try:
            return self._run()
        except Livelock as e:
            raise Violation(str(e), "dead")
        finally:
            self.w.close()

    def start(self, text=None):
        ok = self.w.start(self.render(self.cfg) if text is None else text, args=self.args, verbose=self.scn.get("verbose", 2))
        if not ok:
            self.fail("server refused a valid configuration: " + self.w.stderr()[-500:])
        self.ports = None
        self.pubkey = None
        self.listening = self.cfg
        self.acts = {}
        for a in self.cfg["accounts"]:
            self.acts[a["name"]] = Acct(a["name"], self.new_gen())
            if a.get("client_secret"):
                self.secrets.add(a["client_secret"])
        self.used_texts.append(json.dumps(self.cfg))
        self.t_start = self.t
        self.converge()

    def _run(self):
        self.cfg = self.confs[self.scn.get("start", 0) % len(self.confs)]
        self.start()
        stopped = False
        for i, op in enumerate(self.scn["ops"]):
            self.step = i
            self.batch += 1
            try:
                getattr(self, "op_" + op["op"])(op)
                self.converge()
                self.finals()
            except Stop as e:
                self.count("stopped")
                stopped = True
                break
            except Violation as e:
                raise Violation("step %d %s: %s" % (i, json.dumps(op), e), e.cat)
            self.count("op_" + op["op"])
        self.step = "end"
        try:
            self.finish(not stopped)
        except Stop as e:
            self.count("stopped")
            self.final_checks()
        return self.stats

    def finish(self, probe):
        if not self.started_ok():
            return
        if probe:
            self.op_probe({})
        elif not self.w.alive():
            self.dead()
        self.final_checks()

    def started_ok(self):
        return self.w.spid is not None

    def final_checks(self):
        err = self.w.stderr()
        if "panicked at" in err:
            self.fail("server panicked: " + err[err.index("panicked at"):][:400])
        self.check_secrets(err)
        for t in self.w.tls_peers:
            self.count("tls_peers")
            if t.app:
                self.fail("sent to a token server with an untrustworthy certificate (%s): %r" % (t.mode, t.app[:300]), "peer")
            if b"HTTP/1" in t.raw or b"grant_type" in t.raw or any(x.encode() in t.raw for x in self.secrets if x and len(x) >= 6):
                self.fail("sent in plain to an https token server: %r" % t.raw[:300], "peer")

    def check_secrets(self, err):
        conf_strings = "\n".join(self.used_texts)
        sec = [s for s in self.secrets if s and len(s) >= 6]
        blobs = [("log output", err)] + [("output of %s" % k, o + e) for k, o, e in self.text_seen]
        for c in self.w.cmds:
            if c.ready:
                blobs.append(("environment or arguments of a command", json.dumps([c.argv, c.env], ensure_ascii=False)))
        for d in self.w.drain_syslog():
            blobs.append(("syslog", d))
        for root, dirs, files in os.walk(self.w.dir):
            for fn in files:
                p = os.path.join(root, fn)
                if p in (self.w.conf, self.w.errpath) or fn.startswith("shm"):
                    continue
                try:
                    with open(p, "rb") as f:
                        blobs.append(("file " + fn, f.read().decode("utf-8", "replace")))
                except OSError:
                    pass
        for where, text in blobs:
            for s in sec:
                if s in text or json.dumps(s)[1:-1] in text:
                    self.fail("secret %r occurs in %s: %r" % (s, where, text[max(0, text.find(s) - 80):][:240]))

    def op_probe(self, op):
        """show every account (twice quiet): the state of everything is as the model says."""
        for n in self.names():
            if self.acts[n].st == "E":
                continue
            self.op_show({"a": self.names().index(n), "u": False})
            self.converge()
        self.op_status({})

    @staticmethod
    def argv(cmd, n, op):
        """The command, written in one of the ways in which it can be."""
        u = ["-u"] if op.get("u") else []
        form = op.get("form", 0)
        if form == 1 and not n.startswith("-"):
            return [cmd, n] + u
        if form == 2 and not n.startswith("-"):
            return [cmd] + u + [n]
        if form == 3 and not n.startswith("-"):
            return [cmd, n] + u + ["--"]
        return [cmd] + u + ["--", n]

    def op_show(self, op):
        n = self.pick(op["a"])
        a = self.acts[n]
        if self.acts and any(x.st == "A" and abs(x.expiry - self.t) < 45 * MS for x in self.acts.values()):
            self.nudge()
        was = a.st
        rc, out, err = self.cli(self.argv("show", n, op))
        if a.st == "A" and a.expiry > self.t:
            if rc != 0 or out != (a.at + "\n").encode():
                self.fail("show %r: exit %r, stdout %r, stderr %r; the current token is %r" % (n, rc, out, err, a.at))
            self.count("show_token")
            return
        if rc != 1 or out != b"" or not err.strip():
            self.fail("show %r (state %s): exit %r, stdout %r, stderr %r; expected a failure" % (n, a.st, rc, out, err))
        if a.st == "E":
            self.m_pending(a)
            self.check_pending_msg(a, err, op.get("u"))
        elif a.st == "P":
            self.check_pending_msg(a, err, op.get("u"))
        else:
            if self.urls_in(err):
                self.fail("show %r with an expired token prints a URL: %r" % (n, err))
            self.count("show_expired")
            if not a.ongoing:
                self.m_start_refresh(a)

    def op_refresh(self, op):
        n = self.pick(op["a"])
        a = self.acts[n]
        rc, out, err = self.cli(self.argv("refresh", n, op))
        if out:
            self.fail("refresh %r prints %r" % (n, out))
        if a.st == "A":
            if rc != 0:
                self.fail("refresh %r of an existing token: exit %r, %r" % (n, rc, err))
            self.count("refresh_cmd")
            if not a.ongoing:
                self.m_start_refresh(a)
            else:
                self.count("refresh_cmd_ongoing")
            return
        if rc != 1:
            self.fail("refresh %r without a token: exit %r" % (n, rc))
        self.m_pending(a)
        self.check_pending_msg(a, err, op.get("u"))

    def op_revoke(self, op):
        n = self.pick(op["a"])
        a = self.acts[n]
        rc, out, err = self.cli(self.argv("revoke", n, op))
        if rc != 0 or out:
            self.fail("revoke %r: exit %r, %r %r" % (n, rc, out, err))
        self.m_empty(a)
        self.m_event(n, "token_revoked")

    def op_unknown(self, op):
        n = op.get("name")
        if "mut" in op:
            import unicodedata
            o = self.pick(op["a"])
            n = {"pre ": " " + o, "post ": o + " ", "trim": o.strip(), "upper": o.upper(), "lower": o.lower(), "short": o[:-1], "long": o + "x", "nl": o + "\n",
                 "tail": o[1:], "quote": '"' + o + '"', "nfd": unicodedata.normalize("NFD", o)}[op["mut"]]
        if n in self.acts:
            return
        rc, out, err = self.cli([op["cmd"], "--", n])
        if rc != 1 or out or not err.strip():
            self.fail("%s of unknown account %r: exit %r, %r %r" % (op["cmd"], n, rc, out, err))

    SUB = {"dump": ("", 0), "info": ("cj", 0), "refresh": ("u", 1), "reload": ("", 0), "restore": ("", 0), "revoke": ("", 1), "server": ("cd", 0), "show": ("u", 1),
           "shutdown": ("", 0), "status": ("", 0)}

    @classmethod
    def usage(cls, args):
        """bad, ok, or unsure."""
        if not args:
            return "bad"
        if args[0] not in cls.SUB:
            return "bad" if args[0] not in ("-h", "--help") else "unsure"
        flags, nfree = cls.SUB[args[0]]
        free, unsure, seen, rest = 0, False, set(), False
        for a in args[1:]:
            if rest or a == "-" or not a.startswith("-"):
                free += 1
            elif a == "--":
                rest = True
            elif a.startswith("--"):
                k = a[2:].partition("=")[0]
                if k not in ("help", "verbose") and not (k == "config" and "c" in flags) and len(k) > 1:
                    return "bad"
                unsure = True
            else:
                for c in a[1:]:
                    if c in "hv" or c == "c" and "c" in flags or c in seen:
                        unsure = True
                    elif c not in flags:
                        return "bad" if not unsure else "unsure"
                    seen.add(c)
        if unsure:
            return "unsure"
        return "ok" if free == nfree else "bad"

    def op_usage(self, op):
        """A command line that means nothing; it must fail, say so, and do nothing."""
        args = [self.pick(x["acc"]) if isinstance(x, dict) else x for x in op["args"]]
        if self.usage(args) != "bad":
            self.count("usage_" + self.usage(args))
            return
        rc, out, err = self.w.cli(args, env={"XDG_CONFIG_HOME": os.path.join(self.w.dir, "none")})
        if rc is None:
            self.fail("%r hangs" % (args,), "cli")
        if rc == 0 or out or not err.strip() or "panicked at" in err:
            self.fail("%r is wrong usage: exit %r, %r %r" % (args, rc, out, err), "cli")
        self.count("usage_bad")

    def op_outfault(self, op):
        """Output that cannot be written."""
        cmd = op["cmd"]
        args = [cmd]
        if cmd == "show":
            n = self.pick(op["a"])
            a = self.acts[n]
            if a.st != "A" or a.expiry < self.t + 45 * MS:
                return
            args += ["--", n]
        if op["how"] == "full":
            f = open("/dev/full", "wb")
        else:
            r, w = os.pipe()
            os.close(r)
            f = os.fdopen(w, "wb")
        try:
            rc, out, err = self.w.cli(args, stdout=f)
        finally:
            f.close()
        self.text_seen.append((cmd, "", err))
        if rc is None or rc == 0 or not err.strip():
            self.fail("%s whose output cannot be written (%s): exit %r, stderr %r" % (cmd, op["how"], rc, err), "cli")
        self.count("outfault")

    def op_elsewhere(self, op):
        """All commands in a runtime directory that has no server."""
        d = os.path.join(self.w.dir, "elsewhere")
        os.makedirs(d, exist_ok=True)
        self.no_server({"XDG_RUNTIME_DIR": d}, op)
        self.count("no_server")

    def no_server(self, env, op):
        n = self.pick(op.get("a", 0))
        for args in (["show", "--", n], ["show", "-u", "--", n], ["refresh", "--", n], ["revoke", "--", n], ["dump"], ["restore"], ["reload"], ["status"], ["shutdown"]):
            stdin = self.dumps[0]["raw"] if args == ["restore"] and self.dumps else None
            rc, out, err = self.cli(args, env=env, stdin=stdin)
            if rc == 0 or out or not err.strip():
                self.fail("%r without a server: exit %r, %r %r" % (args, rc, out, err), "cli")
        rc, out, err = self.cli(["info", "-j", "-c", self.w.conf], env=env)
        try:
            j = json.loads(out)
        except ValueError:
            j = None
        if rc != 0 or j is None or j.get("server_running") is not False:
            self.fail("info without a server: exit %r, %r %r" % (rc, out, err), "info")
        rc, out, err = self.cli(["info", "-c", self.w.conf], env=env)
        if rc != 0 or b"server not running" not in out:
            self.fail("info without a server: exit %r, %r %r" % (rc, out, err), "info")

    def op_together(self, op):
        """Several clients at the same time, none of which changes anything."""
        jobs = []
        for cmd, i in op["jobs"]:
            n = self.pick(i)
            a = self.acts[n]
            if cmd == "show" and (a.st != "A" or a.expiry < self.t + 45 * MS):
                cmd = "status"
            if cmd == "refresh" and not (a.st == "A" and a.ongoing):
                cmd = "status"
            if cmd == "unknown":
                jobs.append((cmd, None, [["show", "revoke", "refresh"][i % 3], "--", "no such " + n]))
            else:
                jobs.append((cmd, n, [cmd] + (["--", n] if cmd in ("show", "refresh") else ["-j", "-c", self.w.conf] if cmd == "info" else [])))
        for (cmd, n, args), (rc, out, err) in zip(jobs, self.w.cli_many([j[2] for j in jobs])):
            if rc is None:
                self.fail("%r hangs" % (args,), "cli")
            if cmd == "unknown":
                ok = rc == 1 and not out and err.strip()
            elif cmd == "show":
                ok = rc == 0 and out == (self.acts[n].at + "\n").encode()
            else:
                ok = rc == 0
            if not ok:
                self.fail("%r among %d others: exit %r, %r %r" % (args, len(jobs) - 1, rc, out, err), "cli")
            if cmd == "status":
                self.check_status(out)
            elif cmd == "info":
                json.loads(out)
            elif cmd == "dump":
                try:
                    codec.decode(codec.unseal(out))
                except (codec.BadDump, UnicodeDecodeError) as e:
                    self.fail("dump cannot be decoded: %s" % e, "dump")
        self.count("together")

    def op_touch(self, op):
        """Within six hours of running time the socket's times have been renewed."""
        p = os.path.join(self.w.rundir, "pizauth", "pizauth.sock")
        total = int(op["ms"]) * MS
        os.utime(p, ((1000, 1000), (1500, 1000), (1000, 1500))[op.get("order", 0)])
        end = self.t + total
        for _ in range(4):
            self.advance(end - self.t)
            if self.t >= end:
                break
        else:
            self.count("touch_skipped")
            return
        st = os.lstat(p)
        new = [st.st_atime > 2000, st.st_mtime > 2000]
        if total >= TOUCH + 2 * NS and not all(new):
            self.fail("the socket's times are not renewed in %.0f s of running time: atime %r, mtime %r" % (total / NS, st.st_atime, st.st_mtime), "touch")
        self.count("touched" if all(new) else "touch_short")

    RFC = r"[A-Z][a-z]{2}, [ \d]\d? [A-Z][a-z]{2} \d{4,} \d\d:\d\d:\d\d \+0000"

    def op_status(self, op):
        rc, out, err = self.cli(["status"])
        if rc != 0:
            self.fail("status: exit %r %r" % (rc, err))
        self.check_status(out)

    def check_status(self, out):
        text = out.decode("utf-8", "replace")
        pats = {}
        for n, a in self.acts.items():
            if a.st == "E":
                p = "No access token"
            elif a.st == "P":
                p = r"Access token pending authentication(?: \(last notification (?P<n>[^\n]*)\))?"
            elif abs(a.expiry - self.t) < 45 * MS:
                p = r"(?:Active access token|Access token expired)[^\n]*"
            elif a.expiry > self.t:
                p = r"Active access token \(obtained (?P<o>[^;\n]*); expires (?P<e>[^\n]*)\)"
            else:
                p = r"Access token expired \((?:last refresh attempt (?P<r>[^\n]*)|refresh not yet attempted)\)"
            pats[n] = p
        # one entry per account
        left, rest, found, order = list(pats), text, {}, []
        while left:
            for n in sorted(left, key=len, reverse=True):
                m = re.compile(re.escape(n) + ": " + pats[n] + "\n").match(rest)
                if m:
                    found[n] = m
                    order.append(n)
                    left.remove(n)
                    rest = rest[m.end():]
                    break
            else:
                break
        if left or rest:
            self.fail("status prints %r; expected %r" % (text, {n: (a.st) for n, a in self.acts.items()}))
        for i, n in enumerate(order):
            for k in order[i + 1:]:
                # by name, or by what is printed
                if n.encode() > k.encode() and (n + ": ").encode() > (k + ": ").encode() and not (n + ": ").startswith(k + ": "):
                    self.fail("status lists %r before %r" % (n, k))
        for n, a in self.acts.items():
            m = found[n]
            if a.st == "A" and a.expiry - self.t > 45 * MS:
                for g, want in (("o", a.obtained), ("e", a.expiry)):
                    self.check_time(m.group(g), want, n)
            elif a.st == "P" or a.st == "A" and a.expiry - self.t < -45 * MS:
                if self.slack:
                    continue
                what, got, want = ("last notification", m.group("n"), a.last_notif) if a.st == "P" else ("last refresh attempt", m.group("r"), a.lra)
                if (got is None) != (want is None):
                    self.fail("status of %r shows %r as %s, which was %s" % (n, got, what, "never" if want is None else "%.3f s ago" % ((self.t - want) / NS)))
                if got is not None:
                    self.check_time(got, want, n)
                    self.count("status_past_time")
        self.count("status_checked")

    def check_time(self, s, want, n):
        import email.utils
        real = self.w.vc.get("real") + (want - self.t)
        if not 0 < real / NS < 250_000_000_000:
            return
        try:
            dt = email.utils.parsedate_to_datetime(s)
        except (TypeError, ValueError):
            if real / NS > 8_000_000_000:
                return
            self.fail("status of %r: %r is not a time" % (n, s))
        if abs(dt.timestamp() - real / NS) > 2:
            self.fail("status of %r shows %r, which is %.1f s off" % (n, s, dt.timestamp() - real / NS))

    def op_info(self, op):
        old = dict(self.get_ports())
        j = self.info()
        si = j["server_info"]
        now = {k: (None if si[k + "_port"] == "none" else int(si[k + "_port"])) for k in ("http", "https")}
        if now != old or si.get("https_pub_key") != self.pubkey:
            self.fail("info changed: %r then %r" % (old, si))
        rc, out, err = self.cli(["info", "-c", self.w.conf])
        t = out.decode("utf-8", "replace")
        for k in ("http", "https"):
            v = now[k]
            if "%s port: %s" % (k.upper(), "none" if v is None else v) not in t:
                self.fail("info prints %r, ports are %r" % (t, now))

    # --- reload ---
    def op_reload(self, op):
        if "c" not in op:
            return self.bad_reload(op)
        new = self.confs[op["c"] % self.n_confs]
        if self.listeners(new) != self.listeners(self.listening):
            return  # what a change of the listeners means is not documented
        self.w.write_conf(self.render(new))
        rc, out, err = self.cli(["reload"])
        if rc != 0:
            self.fail("reload of a valid configuration: exit %r, %r" % (rc, err))
        self.m_reload(new)

    @staticmethod
    def listeners(c):
        return [c.get(k) for k in ("http_listen", "https_listen")]

    def op_text(self, op):
        """Any text offered as the configuration; the verdict is conflang's."""
        text = op["text"]
        for i, e in enumerate(self.w.eps):
            text = text.replace("@EP%d@" % i, "%s:%d" % (e.ip, e.port))
        v, c = conflang.judge(text)
        how = op.get("how", "reload")
        if v == "unsure":
            self.count("text_unsure")
            return
        if v == "bad":
            if how == "reload":
                self.bad_reload({"bad": c, "text": text})
            else:
                self.bad_start(text, c, how)
            self.count("text_refused")
            self.count("refused: " + re.sub(r"[:'\"(].*", "", re.sub(r"'\w+' |^\w+ (?=twice|missing)", "", c))[:24].strip())
            return
        why = self.text_unfit(c, how)
        if why:
            self.count("text_unfit: " + why)
            return
        self.confs.append(c)
        if how == "reload":
            if self.listeners(c) != self.listeners(self.listening):
                self.count("text_other_listener")
                return
            self.w.write_conf(text)
            rc, out, err = self.cli(["reload"])
            if rc != 0:
                self.fail("reload of a valid configuration: exit %r, %r: %r" % (rc, err, text), "reload")
            self.m_reload(c)
        else:
            self.op_restart({"how": "kill", "text": text, "c": len(self.confs) - 1})
        self.count("text_accepted")

    def text_unfit(self, c, how):
        """Valid configurations the harness cannot follow (its commands or token servers were mutated away)."""
        kinds = {}
        for cf in self.confs + [c]:
            for k in ("auth_notify_cmd", "error_notify_cmd", "token_event_cmd", "transient_error_if_cmd"):
                if cf.get(k) is not None:
                    kinds.setdefault(cf[k], set()).add(k)
        if any(len(v) > 1 for v in kinds.values()):
            return "ambiguous commands"
        if any(self.ep_of(a["token_uri"]) is None for a in c["accounts"]):
            return "foreign token_uri"
        if C.secs(c.get("auth_notify_interval") or "15m") == 0 or any(C.secs(x["refresh_retry"]) == 0 for x in [c] + c["accounts"] if x.get("refresh_retry")):
            return "zero interval"
        if any(c.get(k) not in (None, "none", "127.0.0.1:0", "localhost:0") for k in ("http_listen", "https_listen")):
            return "foreign listener"
        if how == "reload":
            if self.cfg.get("auth_notify_cmd") is None and c.get("auth_notify_cmd") is not None:
                return "reminder command appears"
            old = {a["name"]: a for a in self.cfg["accounts"]}
            for a in c["accounts"]:
                o = old.get(a["name"])
                if o is not None and (o.get("login_hint") is None) != (a.get("login_hint") is None) and C.fields_eff(o) == C.fields_eff(a):
                    return "login_hint in another form"
        return None

    def bad_start(self, text, why, how):
        import subprocess
        p = os.path.join(self.w.dir, "bad.conf")
        with open(p, "wb") as f:
            f.write(text.encode())
        env = dict(self.w.env(), XDG_RUNTIME_DIR=os.path.join(self.w.dir, "run2"))
        os.makedirs(env["XDG_RUNTIME_DIR"], exist_ok=True)
        r = subprocess.run([self.w.paths["bin"], "server"] + (["-d"] if how == "start" else []) + ["-c", p], env=env, cwd=self.w.dir, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        os.unlink(p)
        if r.returncode != 1 or not r.stderr.strip() or b"panicked at" in r.stderr:
            self.fail("server with a bad configuration (%s): exit %r, stderr %r: %r" % (why, r.returncode, r.stderr[-300:], text), "badreload")

    def m_reload(self, new):
        old = {a["name"]: a for a in self.cfg["accounts"]}
        acts = {}
        for a in new["accounts"]:
            n = a["name"]
            cur = self.acts.get(n)
            if cur is not None and C.sec_fields(old[n]) == C.sec_fields(a):
                acts[n] = cur
                if cur.st != "E":
                    self.count("reload_kept")
            else:
                if cur is not None and cur.state:
                    self.old_states.append(cur.state)
                if cur is not None and cur.st != "E":
                    self.count("reload_reset")
                acts[n] = Acct(n, self.new_gen())
            if a.get("client_secret"):
                self.secrets.add(a["client_secret"])
        for n, cur in self.acts.items():
            if acts.get(n) is not cur:
                self.m_leave(cur)
            if n not in acts:
                if cur.state:
                    self.old_states.append(cur.state)
                if cur.st != "E":
                    self.count("reload_removed")
        self.acts = acts
        self.cfg = new
        self.used_texts.append(json.dumps(new))
        self.expect = [e for e in self.expect]

    def bad_reload(self, op):
        b = op["bad"]
        if b == "missing":
            os.unlink(self.w.conf)
        elif b == "dir":
            os.unlink(self.w.conf)
            os.mkdir(self.w.conf)
        elif b == "nonutf8":
            self.w.write_conf(C.render(self.cfg).encode() + b"// \xff\xfe\n")
        else:
            self.w.write_conf(op["text"].replace("@CUR@", C.render(self.cfg)))
        rc, out, err = self.cli(["reload"])
        if b == "dir":
            os.rmdir(self.w.conf)
        self.w.write_conf(C.render(self.cfg))
        if rc != 1 or not err.strip():
            self.fail("reload of a bad configuration (%s): exit %r, stderr %r: %r" % (b, rc, err, op.get("text")))
        self.count("bad_reload")

    # --- redirects ---
    def learn(self, a):
        if a.url is None:
            rc, out, err = self.cli(["show", "--", a.name])
            self.check_pending_msg(a, err, False)

    def op_redir(self, op):
        """kind of state: cur (of account a), old (k-th superseded), rand, none, near (mutated current)"""
        self.nudge(1)
        self.get_ports()
        n = self.pick(op["a"])
        a = self.acts[n]
        which = op.get("state", "cur")
        if which in ("cur", "near", "dup") and a.st == "P":
            self.learn(a)
        state = None
        if which in ("cur", "dup"):
            state = a.state
        elif which == "near":
            state = self.near(a.state, op.get("k", 0)) if a.state else None
        elif which == "old":
            state = self.old_states[op.get("k", 0) % len(self.old_states)] if self.old_states else None
        elif which == "rand":
            state = op.get("val", "AAAAAAAAAAA")
        if state is None and which != "none":
            return
        pairs = [("state", state)] if state is not None else []
        if which == "dup":
            pairs = [("state", self.near(state, 1)), ("state", state)]
        code = None
        if op.get("code", True):
            self.ntok += 1
            code = op["codeval"] if op.get("codeval") is not None else "CODE%d" % self.ntok
            pairs.append(("code", code))
        if op.get("error") is not None:
            pairs.append(("error", op["error"]))
        pairs += [tuple(x) for x in op.get("extra", [])]
        if op.get("rev"):
            pairs.reverse()
        # where is it sent, and to whom is it addressed?
        c = self.acfg(n)
        scheme = urlsplit(c.get("redirect_uri") or "http://localhost/").scheme.lower()
        if op.get("listener"):
            scheme = op["listener"]
        if self.ports.get(scheme) is None:
            return
        port = self.ports[scheme]
        host = hostpart(urlsplit(c.get("redirect_uri") or "http://localhost/"))
        hport = port
        hv = op.get("host", "right")
        if hv == "upper":
            host = host.upper()
        elif hv == "other":
            host = "127.0.0.1" if host != "127.0.0.1" else "localhost"
        elif hv == "ip":
            host = "127.0.0.2" if host != "127.0.0.2" else "10.1.2.4"
        elif hv == "ip6":
            host = "[::1]" if host != "[::1]" else "[::2]"
        elif hv == "ipx":
            # not another spelling of the same address
            host = {"127.0.0.1": "[::ffff:127.0.0.1]", "[::1]": "[::ffff:127.0.0.1]", "10.1.2.3": "10.1.2.3.example"}.get(host, "[::1]")
        elif hv == "pre":
            host = "evil" + host if host[0] != "[" else "[1::1]"
        elif hv == "userinfo":
            host = host + "@evil.example"
        elif hv == "empty":
            host = ""
        elif hv == "dot":
            host = host + "." if host[-1].isalpha() else "[::1:1]"
        elif hv == "sub":
            host = host + ".evil.example" if host[0] != "[" else "[::1].evil.example"
        elif hv == "port":
            hport = port ^ 1
        elif hv == "noport":
            hport = None
        elif hv == "otherport":
            o = self.ports["https" if scheme == "http" else "http"]
            if o is None:
                return
            hport = o
        hosth = host + (":%d" % hport if hport is not None else "")
        enc = (lambda s: "".join("%%%02X" % b for b in s.encode())) if op.get("enc") else (lambda s: quote(s, safe="-_.~"))
        path = op.get("path", "/") + "?" + "&".join(enc(k) + "=" + enc(v) for k, v in pairs)
        req = self.http_request(path, hosth, op)
        for x in self.acts.values():
            if x.st == "P" and state is not None and x.url is None:
                self.learn(x)
        resp = self.http_do(scheme, port, req, op)
        if resp is False:
            self.fail("no response to a redirect although nothing else is going on")
        if op.get("host2"):
            self.count("host_twice")
            host = None
        elif op.get("broke"):
            self.count("redir_broken")
            host = None
        self.m_redirect(pairs, scheme, host, hport, resp)

    def m_redirect(self, pairs, scheme, host, hport, resp):
        """What should happen (own reading of the contract)."""
        first = {}
        for k, v in pairs:
            first.setdefault(k, v)
        tgt = None
        for x in self.acts.values():
            if x.st == "P" and "state" in first and x.state == first["state"]:
                tgt = x
        good = False
        if tgt is not None:
            ru = urlsplit(tgt.redirect)
            good = host is not None and ru.scheme == scheme and hostpart(ru) == host.lower() and ru.port == hport
        m = re.match(rb"HTTP/1\.[01] (\d{3})", resp)
        code_ = int(m.group(1)) if m else None
        self.text_seen.append(("http", resp.decode("utf-8", "replace"), ""))
        if not good or ("error" not in first and "code" not in first):
            self.count("redir_rejected")
            if code_ not in (200, 400, 404):
                self.fail("a redirect that matches nothing is answered %r" % resp[:100])
            if code_ == 200 and tgt is not None:
                self.fail("a redirect addressed elsewhere or incomplete is answered 200")
            return
        if "error" in first:
            self.count("redir_error")
            if code_ is None:
                self.fail("error redirect answered %r" % resp[:100])
            self.m_empty(tgt)
            self.m_error(tgt.name, first["error"])
            return
        self.count("redir_accepted")
        if code_ != 200:
            self.fail("a valid redirect is answered %r" % resp[:100])
        c = tgt.cfg_at
        form = [("code", first["code"]), ("client_id", c["client_id"]), ("redirect_uri", tgt.redirect),
                ("grant_type", "authorization_code")]
        if c.get("client_secret") is not None:
            form.append(("client_secret", c["client_secret"]))
        f = Flight(kind="exchange", name=tgt.name, gen=tgt.gen, form=form, token_uri=c["token_uri"], chal=tgt.chal,
                   state=tgt.state, t0=self.t)
        self.m_connect(f)

    def near(self, s, k):
        k = k % 6
        if k == 0:
            return s + "A"
        if k == 1:
            return s[:-1]
        if k == 2:
            return s.swapcase() if s.swapcase() != s else s + "x"
        if k == 3:
            return ""
        if k == 4:
            return s + " "
        return ("B" if s[0] != "B" else "C") + s[1:]

    def http_request(self, path, host, op):
        hs = [["Host", host]] + [list(x) for x in op.get("headers", [])]
        i = op.get("hostpos", 0) % len(hs)
        hs.insert(i, hs.pop(0))
        if op.get("host2"):
            h2 = ["host", {"same": host, "other": "evil.example", "empty": ""}[op["host2"]]]
            hs = [h2] + hs if op.get("host2first") else hs + [h2]
        case = op.get("hostcase", "Host")
        sep = op.get("sep", ": ")
        b = op.get("broke")
        if b == "nohost":
            hs = [h for h in hs if h[0] != "Host"]
        out = "%s %s HTTP/1.1\r\n" % (b if b in ("POST", "HEAD", "PUT", "get") else "GET", path)
        if b == "leadfold":
            out += " folded: yes\r\n"
        elif b == "shost":
            case = "X-Host"
        for k, v in hs:
            out += (case if k == "Host" else k) + (sep if k == "Host" else ": ") + v + "\r\n"
        return (out + "\r\n").encode("latin1", "replace")

    def http_do(self, scheme, port, req, op):
        """Send a complete request (possibly in fragments), return the response bytes."""
        cuts = op.get("cuts") or []
        if scheme == "https":
            return self.https_do(port, req, cuts)
        c = self.w.http_open(port, self.lip[scheme])
        pos = 0
        for cut in sorted(set(int(x) % (len(req) + 1) for x in cuts)):
            if cut > pos:
                self.w.http_send(c, req[pos:cut])
                pos = cut
                self.w.settle(stable=1)
        self.w.http_send(c, req[pos:])
        ok = self.w.http_wait(c)
        self.w.http_close(c)
        return c.buf if ok else False

    def https_do(self, port, req, cuts, keep=False):
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        ctx.check_hostname = False
        ctx.verify_mode = ssl.CERT_NONE
        inb, outb = ssl.MemoryBIO(), ssl.MemoryBIO()
        o = ctx.wrap_bio(inb, outb, server_hostname="localhost")
        c = self.w.http_open(port, self.lip["https"])

        def flush():
            d = outb.read()
            if d:
                self.w.http_send(c, d)

        def feed():
            if c.buf:
                inb.write(c.buf)
                c.buf = b""

        t0 = time.monotonic()
        while True:
            try:
                o.do_handshake()
                flush()
                break
            except ssl.SSLWantReadError:
                flush()
                if not self.w.http_wait(c, done=lambda b: len(b) > 0):
                    return False
                if c.eof and not c.buf:
                    return b""
                feed()
            if time.monotonic() - t0 > 60:
                raise HarnessError("TLS handshake")
        der = o.getpeercert(True)
        self.check_cert(der)
        pos = 0
        for cut in sorted(set(int(x) % (len(req) + 1) for x in cuts)) + [len(req)]:
            if cut > pos:
                o.write(req[pos:cut])
                flush()
                pos = cut
                if cut != len(req):
                    self.w.settle(stable=1)
        resp = b""
        while True:
            try:
                d = o.read(65536)
                if not d:
                    break
                resp += d
                if b"</html>" in resp or (resp.endswith(b"\r\n\r\n") and not resp.startswith(b"HTTP/1.1 200")):
                    break
            except ssl.SSLWantReadError:
                feed()
                if inb.pending:
                    continue
                if c.eof:
                    break
                if not self.w.http_wait(c, done=lambda b: len(b) > 0):
                    return False
                feed()
                if c.eof and not inb.pending:
                    break
            except (ssl.SSLError, OSError):
                break
        self.w.http_close(c)
        return resp

    def check_cert(self, der):
        key = codec.spki(der)
        rep = re.sub(r"[^0-9a-f]", "", (self.pubkey or "").lower())
        if key.hex() != rep:
            self.fail("the certificate presented has the public key %s, info reports %r" % (key.hex(), self.pubkey), "tls")
        self.count("tls_cert")

    # --- token endpoint ---
    def held(self):
        return [f for f in self.flights if f.phase == "held"]

    def op_again(self, op):
        """The same n times."""
        for i in range(op["n"]):
            for o in op["ops"]:
                self.batch += 1
                getattr(self, "op_" + o["op"])(o)
                self.converge()
                self.finals()
                self.count("op_" + o["op"])

    def op_tok(self, op):
        h = self.held()
        if not h:
            return
        self.nudge(2)
        h = self.held()
        if not h:
            return
        f = h[op.get("k", 0) % len(h)]
        self.answer(f, op["ans"])

    def token_body(self, f, ans):
        self.ntok += 1
        at = ans.get("at") or "AT%d-%s" % (self.ntok, base64.b32encode(hashlib.sha1(b"%d" % self.ntok).digest()[:5]).decode())
        d = {"access_token": at, "token_type": "Bearer", "expires_in": ans.get("exp", 3600)}
        rt = ans.get("rt", "new")
        if f.kind == "refresh" and rt != "new":
            rt = "absent"  # what a refresh_token of another type would mean is not specified
        mrt = rt
        if rt == "new":
            mrt = d["refresh_token"] = ans.get("rtval") or "RT%d-%s" % (self.ntok, base64.b32encode(hashlib.sha1(b"r%d" % self.ntok).digest()[:5]).decode())
        elif rt == "null":
            d["refresh_token"] = None
            mrt = "other"
        elif rt == "num":
            d["refresh_token"] = 17
            mrt = "other"
        elif rt == "obj":
            d["refresh_token"] = {"a": "b"}
            mrt = "other"
        for k, v in ans.get("extra", []):
            d.setdefault(k, v)
        for k in ans.get("drop", []):
            d.pop(k, None)
        for k, v in ans.get("set", {}).items():
            d[k] = v
        if ans.get("sorted"):
            d = dict(sorted(d.items()))
        return d, dict(at=at, rt=mrt, exp=d.get("expires_in"))

    def answer(self, f, ans):
        data, close, effect = self.plan_answer(f, ans)
        self.w.answer(f.req, data, close=close)
        effect()

    def plan_answer(self, f, ans):
        """What is sent, how the connection ends, and what it means."""
        k = ans["kind"]
        self.count("ans_" + k)
        if k == "ok":
            d, tok = self.token_body(f, ans)
            body = json.dumps(d, ensure_ascii=bool(ans.get("ascii"))).encode()
            if ans.get("ws"):
                body = b" \n" + body + b"\r\n "
            return self.http_resp(ans.get("status", 200), body, ans), "fin", lambda: self.m_success(f, tok)
        if k == "status":
            return self.http_resp(ans["status"], ans.get("body", "").encode(), ans), "fin", lambda: self.m_refused(f, str(ans["status"]))
        if k == "oauth":
            body = json.dumps(dict({"error": ans.get("error", "invalid_grant")}, **ans.get("more", {}))).encode()
            return self.http_resp(200, body, ans), "fin", lambda: self.m_refused(f, ans.get("error", "invalid_grant"))
        if k == "bad":  # complete answer without a usable token
            if "raw" in ans:
                body = ans["raw"].encode()
            else:
                d, tok = self.token_body(f, ans)
                body = json.dumps(d).encode()
                self.secrets.add(tok["at"])
            return self.http_resp(200, body, ans), "fin", lambda: self.m_refused(f, None)
        if k == "trunc":  # body cut short
            d, tok = self.token_body(f, ans)
            body = json.dumps(d).encode()
            full = self.http_resp(200, body, ans)
            cut = len(full) - 1 - ans.get("cut", 0) % max(1, len(body) - 1)
            self.secrets.add(tok["at"])
            return full[:cut], "fin", (lambda: self.m_refused(f, None)) if f.kind == "exchange" else (lambda: self.m_transport_fail(f))
        if k == "eof":
            return b"", "fin", lambda: self.m_transport_fail(f)
        if k == "rst":
            return b"", "rst", lambda: self.m_transport_fail(f)
        if k == "headcut":  # status line and part of the headers, then gone
            full = self.http_resp(200, b"{}", ans)
            return full[:20 + ans.get("cut", 0) % 20], "fin", lambda: self.m_transport_fail(f)
        raise HarnessError("answer kind " + k)

    def http_resp(self, status, body, ans):
        enc = ans.get("enc", "len")
        h = "HTTP/1.1 %d X\r\nContent-Type: %s\r\n" % (status, ans.get("ct", "application/json"))
        if enc == "len":
            return (h + "Content-Length: %d\r\n\r\n" % len(body)).encode() + body
        if enc == "chunked":
            n = max(1, len(body) // 2)
            parts = [body[i:i + n] for i in range(0, len(body), n)]
            return (h + "Transfer-Encoding: chunked\r\n\r\n").encode() + b"".join(
                b"%x\r\n%s\r\n" % (len(p), p) for p in parts) + b"0\r\n\r\n"
        return (h + "Connection: close\r\n\r\n").encode() + body

    def op_ep(self, op):
        """An endpoint goes down (connections refused) or up."""
        e = self.w.eps[op["ep"] % self.n_eps]
        if "tls" in op and e.tls:
            e.tls = op["tls"]
        if "up" in op:
            e.set_up(op["up"])

    # --- time ---
    def op_adv(self, op):
        self.advance(int(op["ms"]) * MS)

    def op_advdue(self, op):
        """To the k-th next due time: just before, or just after."""
        ds = sorted(set(x for a in self.acts.values() for x in (self.refresh_due(a), self.notify_due(a)) if x is not None and self.t < x < 2 ** 62))
        if not ds:
            return
        d = ds[op.get("k", 0) % len(ds)]
        off = op.get("off", 0)
        self.advance(d + off * MS - self.t)

    def op_suspend(self, op):
        """The machine sleeps: the suspend-aware clock and wall clock move, running time does not."""
        L = int(op["ms"]) * MS
        self.nudge()
        vc = self.w.vc
        t0 = self.t
        self.count("suspend")
        vc.set("boot", vc.get("boot") + L)
        vc.set("real", vc.get("real") + L)
        vc.bump()
        self.window(op)

    def op_settime(self, op):
        """The wall clock is set; no time passes."""
        vc = self.w.vc
        vc.set("real", max(op.get("min", 10), op["abs"] if "abs" in op else vc.get("real") // NS + int(op["s"])) * NS + vc.get("real") % NS)
        vc.bump()
        self.count("settime")

    def window(self, op):
        """After a sleep: overdue work must be done within about 40 s of running time, and is not done early."""
        end = self.t + 41 * NS
        due = {}
        shows = list(op.get("shows", []))
        k = 0
        while True:
            # observe adaptively
            if not self.w.settle():
                self.dead()
            self.loose()
            if any(f.phase == "final" for f in self.flights):
                raise Stop("an exchange given up in the window")
            if self.t >= end:
                break
            if shows and k in (0, 2):
                i = shows.pop(0)
                self.loose_show(i)
                self.loose()
            k += 1
            self.jump(min(end, self.t + 4 * NS + 100 * MS))
        # everything overdue at (or before) the end of the window must have been started
        late = []
        for a in self.acts.values():
            d = self.refresh_due(a)
            if d is not None and d <= self.t - 300 * MS:
                if a.rt is None and (self.cfg.get("token_event_cmd") is None or self.shell != "ok"):
                    self.m_start_refresh(a)  # not observable
                else:
                    late.append("refresh of %r, due %.1f s ago" % (a.name, (self.t - d) / NS))
            d = self.notify_due(a)
            if d is not None and d <= self.t - 300 * MS:
                if self.cfg.get("auth_notify_cmd") is None or self.shell != "ok":
                    a.last_notif = self.t
                else:
                    late.append("notification of %r, due %.1f s ago" % (a.name, (self.t - d) / NS))
        if late:
            self.fail("41 s of running time after resuming, still not done: " + "; ".join(late))
        for a in self.acts.values():
            if self.notify_due(a) is not None and self.cfg.get("auth_notify_cmd") is None:
                raise Stop("unobservable reminders")

    def loose_show(self, i):
        n = self.pick(i)
        a = self.acts[n]
        if a.st != "A" or abs(a.expiry - self.t) < 45 * MS:
            return
        rc, out, err = self.cli(["show", "--", n])
        self.count("show_after_resume")
        if not self.w.settle():
            self.dead()
        if a.expiry > self.t:
            self.loose()
            if rc != 0 or out != (a.at + "\n").encode():
                self.fail("show %r after resume: exit %r, %r %r, token is %r" % (n, rc, out, err, a.at))
        else:
            if a.rt is None:
                # dropped, or about to be
                if rc == 0 or out:
                    self.fail("show %r prints a token that expired during the sleep" % n)
                if self.urls_in(err):
                    raise Stop("token dropped and new request made")
                self.loose()
                if a.st == "A":
                    self.m_start_refresh(a)
                return
            if rc != 1 or out:
                self.fail("show %r after resume: exit %r, %r; the token expired during the sleep" % (n, rc, out))
            if not a.ongoing:
                self.m_start_refresh(a)
            self.loose()

    def loose(self):
        """Process observations, accepting any overdue work as done now."""
        for _ in range(1000):
            self.batch += 1
            if not self.w.settle():
                self.dead()
            obs = self.w.take()
            self.w.obs = []
            if not obs:
                self.auto_cmds()
                m = self.missing()
                if m:
                    time.sleep(0.02)
                    self.w.settle()
                    if not self.w.obs:
                        self.fail("did not happen: %r" % m, self.missing_cat(m))
                    continue
                return
            for k, o in sorted(obs, key=lambda x: x[0] != "conn"):
                if k == "conn" and not any(f.phase in ("conn", "may-conn") and not f.conn_seen and
                                           self.ep_of(f.token_uri) == o for f in self.flights):
                    # which of the accounts that are due: the one whose request is already there, or the longest due
                    sent = {v for kk, r in obs if kk == "req" for n, v in (r.form or []) if n == "refresh_token"}
                    cand = [a for a in self.acts.values() if (self.refresh_due(a) or 1 << 200) <= self.t and
                            a.rt is not None and self.ep_of(self.acfg(a.name)["token_uri"]) == o]
                    for a in sorted(cand, key=lambda a: (a.rt not in sent, self.refresh_due(a)))[:1]:
                        self.m_start_refresh(a)
                        self.count("refresh_by_timer")
                elif k == "cmd":
                    kind, key = self.cmd_kind(o)
                    a = self.acts.get(o.env.get("PIZAUTH_ACCOUNT"))
                    if a is not None and kind == "notify":
                        d = self.notify_due(a)
                        if d is not None and d <= self.t:
                            self.m_notify(a)
                            self.count("renotify")
                    if a is not None and kind == "event" and o.env.get("PIZAUTH_EVENT") == "token_invalidated":
                        d = self.refresh_due(a)
                        if a.rt is None and d is not None and d <= self.t:
                            self.m_start_refresh(a)
                getattr(self, "o_" + k)(o)
            self.flights = [f for f in self.flights if f.phase != "done"]
        raise HarnessError("endless activity")

    # --- dump and restore ---
    def op_dump(self, op):
        rc, out, err = self.cli(["dump"])
        if rc != 0 or not out:
            self.fail("dump: exit %r, %d bytes, %r" % (rc, len(out), err))
        try:
            d = codec.decode(codec.unseal(out))
        except (codec.BadDump, UnicodeDecodeError) as e:
            self.fail("dump cannot be decoded: %s" % e)
        for b in [x for x in self.secrets if x and len(x) >= 6] + [a.at for a in self.acts.values() if a.at and len(a.at) >= 6]:
            if b.encode() in out:
                self.fail("dump contains %r in plain" % b)
        if any(out == x["raw"] for x in self.dumps):
            self.fail("two dumps are identical")
        want = {}
        for n, a in self.acts.items():
            c = self.acfg(n)
            want[n] = (self.dump_fields(c), a)
        if d["version"] != 1 or set(d["accounts"]) != set(want):
            self.fail("dump is of version %r with accounts %r; expected %r" % (d["version"], sorted(d["accounts"]), sorted(want)))
        for n, (wf, a) in want.items():
            gf, gt = d["accounts"][n]
            if gf != wf:
                self.fail("dump has account fields %r instead of %r" % (gf, wf))
            if a.st != "A":
                if gt is not None:
                    self.fail("dump has a token for %r, which has none" % n)
                continue
            if gt is None or gt["access_token"] != a.at or gt["refresh_token"] != a.rt:
                self.fail("dump has token %r for %r instead of %r / %r" % (gt, n, a.at, a.rt))
            for k, v in (("obtained", a.obtained), ("expiry", a.expiry)):
                w = self.w.vc.get("real") + v - self.t
                if abs(gt[k] - w) > 100 * MS and 0 < w < 2**62 and not self.clamped(v):
                    self.fail("dump has %s %d for %r instead of %d" % (k, gt[k], n, w))
        self.dumps.append({"raw": out, "dec": d})
        self.count("dump_checked")
        if any(a.st == "A" for a in self.acts.values()):
            self.count("dump_with_token")

    def clamped(self, v):
        return abs(v - self.t) > 2**61

    def dump_fields(self, c):
        return dict(auth_uri=c["auth_uri"], auth_uri_fields=C.fields_eff(c), client_id=c["client_id"],
                    client_secret=c.get("client_secret"), redirect_uri=c.get("redirect_uri") or "http://localhost/",
                    scopes=list(c.get("scopes") or []), token_uri=c["token_uri"])

    def op_restore(self, op):
        if not self.dumps and op.get("mut") not in ("empty", "garbage"):
            return
        if not self.given:
            self.nudge()
        src = self.dumps[op.get("d", 0) % len(self.dumps)] if self.dumps else None
        raw, dec, mut = (src or {}).get("raw", b""), (src or {}).get("dec"), op.get("mut")
        x = int(op.get("x", 0))
        if mut is None:
            pass
        elif mut == "empty":
            raw, dec = b"", None
        elif mut == "garbage":
            raw, dec = hashlib.sha512(b"%d" % x).digest()[:x % 60], None
        elif mut == "flip":
            b = bytearray(raw)
            b[x % len(b)] ^= 1 << (x // 7 % 8)
            raw, dec = bytes(b), None
        elif mut == "trunc":
            raw, dec = raw[:x % len(raw)], None
        elif mut == "extend":
            raw, dec = raw + b"\0" * (1 + x % 5), None
        elif mut == "plain":
            raw, dec = codec.encode(dec), None
        elif mut == "version":
            d = dict(dec, version=(0, 2, 256, 2**63, 2**64 - 1)[x % 5])
            raw, dec = codec.seal(hashlib.sha1(b"%d" % x).digest()[:12], codec.encode(d)), None
        elif mut == "badplain":  # properly sealed, but not a record
            p = codec.encode(dec)
            p = (p[:x % len(p)], b"", p[:8] + struct.pack("<Q", 2**40) + p[16:])[x % 3]
            raw, dec = codec.seal(hashlib.sha1(b"%d" % x).digest()[:12], p), None
        elif mut == "craft":
            dec = self.craft(dec, op)
            raw = codec.seal(hashlib.sha1(b"c%d" % x).digest()[:12], codec.encode(dec))
        rc, out, err = self.cli(["restore"], stdin=raw)
        if dec is None:
            if rc != 1 or not err.strip():
                self.fail("restore of unusable input (%s): exit %r %r" % (mut, rc, err))
            self.count("restore_refused")
            return
        if rc != 0:
            self.fail("restore of a valid dump: exit %r %r" % (rc, err))
        real = self.w.vc.get("real")
        for n, a in self.acts.items():
            if a.st == "A" or n not in dec["accounts"]:
                continue
            gf, gt = dec["accounts"][n]
            if gt is None:
                continue
            if gf != self.dump_fields(self.acfg(n)):
                self.count("restore_skipped_changed")
                continue
            self.m_active(a, gt["access_token"], gt["refresh_token"], 0)
            for k in ("obtained", "expiry"):
                setattr(a, k, self.t + gt[k] - real)
            self.count("restored")
        self.count("restore_ok")

    def craft(self, dec, op):
        """A dump written by another implementation: edited copy of a real one."""
        d = json.loads(json.dumps(dec))
        x = int(op.get("x", 0))
        names = list(d["accounts"])
        for i, n in enumerate(names):
            f, t = d["accounts"][n]
            how = op.get("how", "token")
            sel = (x + i) % 2 == 0 or op.get("all")
            if not sel:
                continue
            if how == "token":
                now = self.w.vc.get("real")
                self.ntok += 1
                d["accounts"][n][1] = dict(access_token=op.get("at") or "CRAFT%d" % self.ntok,
                                           obtained=max(0, now - int(op.get("age", 10)) * NS),
                                           expiry=max(0, now + int(op.get("left", 1000)) * NS),
                                           refresh_token=op["rt"] + "-%d" % i if op.get("rt") else None)
            elif how == "field" and t is not None:
                k = ("auth_uri", "client_id", "redirect_uri", "token_uri")[x // 2 % 4]
                if x // 8 % 3 == 0:
                    f[k] += "x"
                elif x // 8 % 3 == 1:
                    f["client_secret"] = None if f["client_secret"] is not None else ""
                else:
                    f["scopes"] = list(reversed(f["scopes"])) if len(f["scopes"]) > 1 and f["scopes"][::-1] != f["scopes"] else f["scopes"] + ["z"]
            elif how == "fields" and t is not None:
                if x // 2 % 2 and len(f["auth_uri_fields"]) > 1 and f["auth_uri_fields"][::-1] != f["auth_uri_fields"]:
                    f["auth_uri_fields"] = f["auth_uri_fields"][::-1]
                else:
                    f["auth_uri_fields"] = f["auth_uri_fields"] + [["k", "v"]]
            elif how == "empty":
                d["accounts"][n][1] = None
            elif how == "rename":
                d["accounts"][n + "~"] = d["accounts"].pop(n)
        d["accounts"] = {k: (v[0], v[1]) for k, v in reversed(list(d["accounts"].items()))}
        return d

    # --- commands ---
    def op_mode(self, op):
        self.modes[op["kind"]] = op["mode"]
        self.auto_cmds()

    def op_cmd(self, op):
        """End a held command."""
        run = [c for c in self.w.cmds if c.ready and c.told is None and not c.ended and
               (not op.get("kind") or self.cmds.get(c, {}).get("kind") == op["kind"])]
        if not run:
            return
        self.nudge(3)
        run = [c for c in run if not c.ended]
        if not run:
            return
        self.w.end_cmd(run[op.get("k", 0) % len(run)], op.get("code", 0))
        self.count("cmd_ended")

    # --- server life ---
    def op_restart(self, op):
        how = op.get("how", "kill")
        if how == "shutdown":
            rc, out, err = self.cli(["shutdown"])
            if rc != 0:
                self.fail("shutdown: exit %r %r" % (rc, err))
            t0 = time.monotonic()
            while self.w.alive():
                time.sleep(0.002)
                if time.monotonic() - t0 > 30:
                    self.fail("server does not end after shutdown")
            self.w.stop()
        else:
            self.w.stop(signal.SIGTERM if how == "term" else signal.SIGKILL)
        self.count("restart")
        # what was running for the old server is gone
        for c in self.w.cmds:
            c.over = True
            if not c.ended and c.pid:
                c.told = 0
                try:
                    os.kill(c.pid, signal.SIGKILL)
                except OSError:
                    pass
        t0 = time.monotonic()
        while any(c.ready and not c.ended for c in self.w.cmds):
            self.w.pump(0.005)
            if time.monotonic() - t0 > 20:
                raise HarnessError("commands do not end")
        for r in self.w.reqs:
            r.flight = None
        self.w.pump(0.005)
        self.w.take()
        self.flights, self.events, self.ev_running, self.expect, self.cmds = [], [], None, [], {}
        for a in self.acts.values():
            if a.state:
                self.old_states.append(a.state)
        if op.get("norun"):
            self.no_server({}, op)
        if op.get("c") is not None:
            self.cfg = self.confs[op["c"] % (len(self.confs) if "text" in op else self.n_confs)]
        self.w.exit_code = None
        self.start(op.get("text"))

    def op_server2(self, op):
        """A second server for the same runtime directory."""
        import subprocess
        block = self.w.raw_open(op["stall"].encode("latin1")) if "stall" in op else None
        try:
            p = subprocess.run([self.w.paths["bin"], "server"] + (["-d"] if not op.get("daemon") else []) + ["-c", self.w.conf], env=self.w.env(), cwd=self.w.dir,
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
        except subprocess.TimeoutExpired:
            self.fail("a second server neither gives up nor goes away" + (" while a client is connected" if block else ""), "life")
        finally:
            if block:
                block.close()
        if p.returncode != 1 or not p.stderr.strip():
            self.fail("second server: exit %r %r" % (p.returncode, p.stderr))
        self.count("server2_stalled" if block else "server2")

    # --- clients that wait, and clients that do not ---
    def op_crowd(self, op):
        """The server is kept waiting by a client; others queue up, and some of them leave without their reply."""
        self.nudge()
        if any(x.st == "A" and abs(x.expiry - self.t) < 200 * MS for x in self.acts.values()):
            return
        jobs, busy, eventful = [], set(), False
        for cmd, i, stays in op["jobs"]:
            n = self.pick(i)
            a = self.acts[n]
            if cmd in ("show", "refresh", "revoke"):
                # what the others change must not depend on who is first
                ev = cmd == "revoke" or a.st == "A" and a.rt is None and not (cmd == "show" and a.expiry > self.t)
                pure = cmd == "show" and (a.st == "P" or a.st == "A" and a.expiry > self.t)
                if n in busy or eventful and ev:
                    continue
                if not pure:
                    busy.add(n)
                    if any(j[1] == n or j[0] in ("status", "dump") for j in jobs):
                        continue
                eventful |= ev
            elif cmd in ("status", "dump") and busy:
                continue
            jobs.append((cmd, n, stays, [cmd] + (["--", n] if cmd in ("show", "refresh", "revoke") else ["-j", "-c", self.w.conf] if cmd == "info" else [])))
        if not jobs:
            return
        block = self.w.raw_open(op.get("block", "").encode("latin1")) if op.get("block") is not None else None
        waiting, gone = [], []
        for cmd, n, stays, args in jobs:
            if stays:
                waiting.append((cmd, n, args, self.w.cli_start(args)))
            else:
                d = self.w.request_of(args)
                if d:
                    s = self.w.raw_open(d)
                    if op.get("late"):
                        gone.append(s)
                    else:
                        s.close()
        if op.get("late"):
            time.sleep(0.003)
        for s in gone:
            s.close()
        if block:
            block.close()
        res = [(cmd, n, args, self.w.cli_end(h)) for cmd, n, args, h in waiting]
        if not self.w.settle():
            self.dead()
        for cmd, n, args, r in res:
            if r[0] is None:
                self.fail("%r gets no answer after another client has left" % (args,), "sock")
            if cmd == "dump":
                if r[0] != 0 or not r[1]:
                    self.fail("dump among others: exit %r" % (r[0],), "sock")
                continue
            if cmd == "info":
                if r[0] != 0 or json.loads(r[1]).get("server_info") is None:
                    self.fail("info among others: exit %r %r" % (r[0], r[1]), "sock")
                continue
            self.given = (args, r)
            try:
                if cmd == "status":
                    self.op_status(dict(op="status"))
                else:
                    getattr(self, "op_" + cmd)({"op": cmd, "a": self.names().index(n)})
            finally:
                self.given = None
        for cmd, n, stays, args in jobs:
            if not stays:
                self.m_quiet(cmd, self.acts[n])
                self.count("left_before_reply")
        self.count("crowd")

    def m_quiet(self, cmd, a):
        """A command was carried out, and nobody saw the reply."""
        if cmd == "revoke":
            self.m_empty(a)
            self.m_event(a.name, "token_revoked")
        elif cmd == "show":
            if a.st == "E":
                self.m_pending(a)
            elif a.st == "A" and a.expiry <= self.t and not a.ongoing:
                self.m_start_refresh(a)
        elif cmd == "refresh":
            if a.st != "A":
                self.m_pending(a)
            elif not a.ongoing:
                self.m_start_refresh(a)

    # --- one thread is kept waiting in the middle of its work ---
    def save(self):
        objs = list(self.acts.values()) + self.flights + self.expect + ([self.ev_running] if isinstance(self.ev_running, Expect) else [])
        keep = {k: (type(v)(v) if isinstance(v, (list, dict, set)) else v) for k, v in self.__dict__.items() if k not in ("w", "scn", "confs")}
        return keep, [(o, dict(o.__dict__)) for o in objs], (set(self.FRESH_STATES), set(self.FRESH_CHALS))

    def back(self, saved):
        keep, objs, (fs, fc) = saved
        self.__dict__.update({k: (type(v)(v) if isinstance(v, (list, dict, set)) else v) for k, v in keep.items()})
        for o, d in objs:
            o.__dict__.clear()
            o.__dict__.update(d)
        for mine, old in ((self.FRESH_STATES, fs), (self.FRESH_CHALS, fc)):
            mine.clear()
            mine.update(old)

    def act(self, x):
        """An action: (how it is started, whether it is known to be over, what it means; None where there is none), or None."""
        k = x["k"]
        if k in ("show", "refresh", "revoke", "status"):
            n = self.pick(x["a"])
            a = self.acts[n]
            if k in ("show", "refresh") and a.st == "A" and a.rt is None and (k == "refresh" or a.expiry < self.t):
                return None
            args = ["status"] if k == "status" else [k, "--", n]
            h = []

            def effect():
                r = h[1]
                if k != "status" and n not in self.acts:
                    if r[0] != 1 or r[1] or not r[2].strip():
                        self.fail("%r of an account that is gone: exit %r, %r %r" % (k, *r), "cli")
                    return
                self.given = (args, r)
                self.slack = True
                try:
                    getattr(self, "op_" + k)({"op": k, "a": 0 if k == "status" else self.names().index(n)})
                finally:
                    self.given = None
                    self.slack = False

            return dict(name=" ".join(args), start=lambda: h.append(self.w.cli_start(args)), over=lambda: h[0][0].poll() is not None,
                        end=lambda: h.append(self.w.cli_end(h[0])), res=lambda: h[1], effect=effect)
        if k == "reload":
            new = self.confs[x["c"] % self.n_confs]
            if self.listeners(new) != self.listeners(self.listening) or any((new.get(k) is None) != (self.cfg.get(k) is None) for k in
                                                                            ("auth_notify_cmd", "error_notify_cmd", "token_event_cmd", "transient_error_if_cmd")):
                return None
            fs = (self.refresh_due, self.notify_due)
            soon = lambda d: d is not None and d < self.t + NS
            old = {a.name: a.name == self.due_now and any(soon(d(a)) for d in fs) for a in self.acts.values()}
            cfg, self.cfg = self.cfg, new
            ds = [(d(a), old[a.name]) for a in self.acts.values() if self.acfg(a.name) for d in fs]
            self.cfg = cfg
            if any(soon(d) and not (o and d < self.t) for d, o in ds):
                return None  # something would become due at once
            h = []

            def start():
                self.w.write_conf(self.render(new))
                h.append(self.w.cli_start(["reload"]))

            def effect():
                if h[1][0] != 0:
                    self.fail("reload of a valid configuration: exit %r, %r" % (h[1][0], h[1][2]), "reload")
                self.m_reload(new)

            return dict(name="reload", start=start, over=lambda: h[0][0].poll() is not None, end=lambda: h.append(self.w.cli_end(h[0])), res=lambda: h[1], effect=effect)
        if k == "due":
            # the next refresh or reminder of the account, and nothing else, becomes due
            a = self.acts[self.pick(x["a"])]
            at = lambda: self.refresh_due(a) if a.st == "A" else self.notify_due(a)
            d = at()
            if d is None or d - PRE < self.t or a.st == "A" and a.rt is None or d > self.t + 40 * 86400 * NS:
                return None
            self.advance(d - PRE - self.t)
            if at() != d or a.st == "A" and a.fails % 6 == 5 or any(x is not None and x != d and x < d + 2 * NS for x in self.dues()) or self.dues().count(d) != 1 \
                    or any(x.st == "A" and abs(x.expiry - d) < 300 * MS for x in self.acts.values()):
                return None
            self.due_now = a.name

            def effect():
                b = self.acts.get(a.name)
                if b is not None:
                    for due, go in ((self.refresh_due, self.m_start_refresh), (self.notify_due, self.m_notify)):
                        when = due(b)
                        if when is not None and when <= self.t:
                            go(b)
            return dict(name="passing of time", start=lambda: self.jump(d + POST), over=None, end=None, effect=effect)
        if k in ("dump", "restore"):
            src = self.dumps[x.get("d", -1) % len(self.dumps)] if self.dumps else None
            if k == "restore":
                if src is None:
                    return None
                real = self.w.vc.get("real")
                if self.refreshing and any(gt is not None and gt["refresh_token"] is None for _, gt in src["dec"]["accounts"].values()):
                    return None
                for n, (_, gt) in src["dec"]["accounts"].items():
                    c = self.acfg(n) if n in self.acts else None
                    if c and gt is not None and min(gt["expiry"] - C.timing(self.cfg, c, "refresh_before_expiry"), gt["obtained"] + C.timing(self.cfg, c, "refresh_at_least")) < real + 5 * NS:
                        return None
            h = []

            def effect():
                self.given = ([k], h[1])
                try:
                    if k == "dump":
                        self.op_dump({})
                    else:
                        self.op_restore({"d": self.dumps.index(src)})
                finally:
                    self.given = None
            return dict(name=k, start=lambda: h.append(self.w.cli_start([k], stdin=src["raw"] if k == "restore" else None)), over=lambda: h[0][0].poll() is not None,
                        end=lambda: h.append(self.w.cli_end(h[0])), res=lambda: (h[1][0], h[1][2]), effect=effect)
        if k == "tok":
            f = [f for f in self.held() if f.name == self.pick(x["a"])]
            if not f:
                return None
            f = f[x.get("n", 0) % len(f)]
            if f in self.promised or f.kind == "refresh" and f.gen == self.acts[f.name].gen and self.acts[f.name].fails % 6 == 5:
                return None
            ans = dict(x["ans"])
            if ans["kind"] == "ok":
                if self.refreshing and ans.get("rt", "new") != "new":
                    ans["rt"] = "new"  # how a refresh of one that can't be refreshed ends isn't settled at once
                # a token that would be refreshed right away wouldn't do, before a reload or after it
                for cf in [self.cfg] + self.reloads:
                    c = next((x for x in cf["accounts"] if x["name"] == f.name), None)
                    if c is None:
                        continue
                    least, before = (C.timing(cf, c, k) for k in ("refresh_at_least", "refresh_before_expiry"))
                    if least < NS:
                        return None
                    if before + NS > ans.get("exp", 3600) * NS:
                        ans["exp"] = before // NS + 3600
                    if self.t // NS + ans.get("exp", 3600) >= MAX_S and least < before + NS:
                        return None
            self.promised.append(f)
            data, close, effect = self.plan_answer(f, ans)
            return dict(name="answer for %s of %s" % (f.kind, f.name), tok=f, start=lambda: self.w.answer(f.req, data, close=close), over=None, end=None, effect=effect)
        # redirect
        a = self.acts[self.pick(x["a"])]
        if a.st != "P":
            return None
        self.learn(a)
        ru = urlsplit(a.redirect)
        port = self.ports.get("http")
        if ru.scheme != "http" or port is None:
            return None
        self.ntok += 1
        pairs = [("state", a.state), ("error", "err%d" % self.ntok) if x.get("error") else ("code", "CODE%d" % self.ntok)]
        req = self.http_request("/?" + "&".join(p + "=" + quote(v, safe="-_.~") for p, v in pairs), "%s:%d" % (hostpart(ru), port), {})
        h = [self.w.http_open(port, self.lip["http"])] if x.get("early") else []

        def drop():
            for c in h:
                self.w.http_close(c)

        def start():
            if not h:
                h.append(self.w.http_open(port, self.lip["http"]))
            self.w.http_send(h[0], req)

        def end():
            if not self.w.http_wait(h[0]):
                self.fail("no response to a redirect", "redirect")
            self.w.http_close(h[0])

        return dict(name="redirect to %s with %s" % (a.name, pairs[1]), start=start, drop=drop, over=lambda: h[0].eof and not x.get("error"), end=end, res=lambda: h[0].buf[:15],
                    effect=lambda: self.m_redirect(pairs, "http", hostpart(ru), port, h[0].buf))

    def op_preempt(self, op):
        """Whoever makes the at-th step from now on is kept waiting there while other things happen. Afterwards everything must be as if all this
        had happened one after the other."""
        self.nudge(3)
        if any(x.st == "A" and abs(x.expiry - self.t) < 200 * MS for x in self.acts.values()):
            return
        self.get_ports()
        self.promised = []
        ks = [x["k"] for x in op["acts"]]
        self.reloads = [self.confs[x["c"] % self.n_confs] for x in op["acts"] if x["k"] == "reload"]
        self.due_now = None
        self.refreshing = bool({"show", "refresh"} & set(ks))
        acts = [a for a in (self.act(x) for i, x in enumerate(op["acts"]) if x["k"] != "due" or i == 0 if x["k"] != "restore" or "reload" not in ks) if a]
        if len(acts) < 2 or any(x.st == "A" and abs(x.expiry - self.t) < 200 * MS for x in self.acts.values()):
            self.count("preempt_void")
            for a in acts:
                a.get("drop", int)()
            return
        self.w.settle()
        vc = self.w.vc
        before, pre = {}, {}
        obs = self.w.take()
        vc.stall(op["at"], op.get("locks") and bool(self.w.paths["traps"]))
        parked = 0
        try:
            over = []
            for i, a in enumerate(acts):
                before[i] = set(over)
                obs += self.w.take()
                pre[i] = len(obs)
                a["start"]()
                if not self.w.settle():
                    self.dead()
                free = not vc.get("stalled")
                parked += not free
                over = [j for j in range(i + 1) if free or acts[j]["over"] and acts[j]["over"]()]
        finally:
            vc.release_stall()
        self.count("preempt" if parked else "preempt_missed")
        if 0 < parked < len(acts):
            self.count("preempt_middle")
        if not self.w.settle():
            self.dead()
        for a in acts:
            if a["end"]:
                a["end"]()
        # which of two answers came first can't be told from anything else
        toks = [a["tok"].name for a in acts if a.get("tok")]
        for n in sorted(set(toks)):
            if toks.count(n) > 1 and n in self.acts:
                a = self.act({"k": "show", "a": self.names().index(n)})
                if a:
                    before[len(acts)] = set(range(len(acts)))
                    pre[len(acts)] = 0
                    acts.append(a)
                    a["start"]()
                    a["end"]()
        cfg, saved = self.cfg, self.save()
        best = None
        for attempt in range(10):
            if not self.w.settle():
                self.dead()
            obs += self.w.take()
            found = []
            for order in sorted(itertools.permutations(range(len(acts)))):
                if any(i in order[order.index(j):] for j in order for i in before[j]):
                    continue
                v, n = self.explain(order, acts, saved, cfg, obs, pre)
                if v is None:
                    found.append((order, self.summary()))
                elif best is None or n >= best[0]:
                    best = n, order, v
            if found:
                if any(x[1] != found[0][1] for x in found):
                    # which it was will be seen only later (in the events still queued, for example)
                    self.count("preempt_ambiguous")
                    raise Stop("ambiguous")
                self.explain(found[0][0], acts, saved, cfg, obs, pre)
                return
            time.sleep(0.01 * attempt)
        what = "; ".join("%s%s" % (a["name"], " -> %r" % (a["res"](),) if "res" in a else "") for a in acts)
        self.fail("no order of %s explains what happened; in order %s: %s" % (what, "".join(str(i + 1) for i in best[1]), best[2]), best[2].cat)

    def explain(self, order, acts, saved, cfg, obs, pre):
        """Has what was observed happened because these things were done in this order (and each saw what had been observed before it was begun)?
        Returns (None, _) or (violation, how far it went)."""
        self.back(saved)
        for k, o in obs:
            if k == "cmdend":
                o.over = False
        n = 0
        try:
            done = 0
            for i in order:
                if pre[i] > done:
                    self.consume(obs[done:pre[i]])
                    done = pre[i]
                self.batch += 1
                acts[i]["effect"]()
                n += 1
            for f in self.flights:
                if f.phase == "conn" and not f.conn_seen and self.m_valid(f) is None:
                    f.phase = "may-conn"
            for e in self.expect:
                if e.kind == "cmd" and e.cmd == "notify" and (e.acct not in self.acts or self.acts[e.acct].gen != e.gen):
                    e.may = True
            self.before = [cfg]
            self.consume(obs[done:])
            n += 1
            m = [f for f in self.missing()]
            if m:
                self.fail("did not happen: %r" % m, self.missing_cat(m))
            self.batch += 1
            for f in self.flights:
                if f.phase == "may-conn":
                    f.phase = "done"
            self.expect = [e for e in self.expect if not e.may]
            self.before = []
            return None, n
        except Violation as v:
            return v, n

    def summary(self):
        """What matters of the state for what happens from now on."""
        acts = [(a.name, a.st, a.at, a.rt, a.state, a.last_notif, a.fails, a.obtained, a.expiry, a.ongoing, a.lra) for a in self.acts.values()]
        flights = sorted((f.kind, f.name, f.phase, self.m_valid(f) is not None, id(f.req)) for f in self.flights if f.phase != "done")
        return sorted(acts, key=lambda a: a[0]), flights, [e[1:] for e in self.events], self.cfg

    # --- what is left behind ---
    def idle(self):
        """Brings all work under way to an end. Is there none left?"""
        self.nudge(3)
        for _ in range(60):
            run = [c for c in self.w.cmds if c.ready and c.told is None and not c.ended]
            h = self.held()
            if h:
                self.answer(h[0], {"kind": "ok", "exp": 86400})
            elif run:
                self.w.end_cmd(run[0], 0)
            else:
                break
            self.converge()
        for tag, c in list(self.w.fds.values()):
            if tag == "cli":
                self.w.http_close(c)
        self.converge()
        return not [f for f in self.flights if f.phase != "done"] and all(c.ended for c in self.w.cmds if c.ready)

    def op_mark(self, op):
        self.base = self.w.resources() if self.idle() else None

    def op_leak(self, op):
        """n rounds of the same work later, what the server holds hasn't grown by one for each of them."""
        if not self.idle() or self.base is None:
            self.count("leak_void")
            return
        best = None
        for i in range(40):
            if not self.w.settle():
                self.dead()
            r = self.w.resources()
            best = r if best is None else {k: min(best[k], r[k]) for k in r}
            grown = {k: best[k] - self.base[k] for k in r if best[k] - self.base[k] >= op["n"]}
            if not grown:
                break
            time.sleep(0.005 * i)
        else:
            self.fail("after %d rounds of the same work, all of it at its end, the server holds more than before: %r (was %r)" % (op["n"], best, self.base), "leak")
        self.count("leak_checked")

    # --- between client and server ---
    def op_proxy(self, op):
        """Someone stands between client and server. how: frag (passes everything on in pieces), lost (takes the request, and the connection ends),
        slam (ends the connection at once), gone (the request is passed on but the reply is not)."""
        how = op["how"]
        self.nudge(1)
        if any(x.st == "A" and abs(x.expiry - self.t) < 200 * MS for x in self.acts.values()):
            return
        self.promised, self.due_now, self.refreshing = [], None, False
        a = None
        if how == "frag":
            a = self.act(dict(op["x"]))
            if a is None:
                return
        else:
            args = list(op["args"])
            if args[0] in ("show", "refresh", "revoke"):
                args += ["--", self.pick(op.get("a", 0))]
            elif args[0] == "info":
                args += ["-c", self.w.conf]
        self.w.settle()
        px = self.w.proxy()
        try:
            if a:
                a["start"]()
            else:
                h = self.w.cli_start(args, stdin=b"x" * op.get("len", 100) if args[0] == "restore" else None)
            px.run(how, op.get("cuts", []))
            if a:
                a["end"]()
            else:
                rc, out, err = self.w.cli_end(h)
        finally:
            px.close()
        self.count("proxy_" + how)
        if a:
            a["effect"]()
            return
        what = "%s, whose connection ends without a reply" % " ".join(args)
        if rc is None or "panicked" in err:
            self.fail("%s: exit %r, stderr %r" % (what, rc, err[-300:]), "cli")
        if args[0] == "info":
            if rc != 0 or b"not running" not in out and b'"server_running":false' not in out.replace(b" ", b""):
                self.fail("%s: exit %r, %r %r" % (what, rc, out, err), "info")
        elif rc == 0 or out or not err.strip():
            self.fail("%s: exit %r, %d bytes, stderr %r" % (what, rc, len(out), err), "cli")

    # --- raw clients ---
    def op_rawsock(self, op):
        data = op["data"].encode("latin1")
        k = self.classify_raw(data)
        if k == "amb":
            return
        if k == "bad":
            rep = self.w.raw_sock(data, shut=op.get("shut", True), read=op.get("read", True) and op.get("shut", True))
            if rep is False:
                self.fail("no reply and no end of connection for %r" % data)
            if rep and rep.split(b":")[0] in (b"ok", b"access_token", b"pending", b"scheduled"):
                self.fail("malformed request %r is answered %r" % (data, rep))
            self.count("raw_bad")
        else:
            cmd, arg = k
            # the client vanishes without reading: the command is carried out all the same
            if cmd == "revoke":
                a = self.acts[arg]
                self.w.raw_sock(data, read=False)
                self.m_empty(a)
                self.m_event(arg, "token_revoked")
            elif cmd == "status" or cmd == "info" or cmd == "dump":
                self.w.raw_sock(data, read=False)
            self.count("raw_wellformed")

    def classify_raw(self, data):
        if b":" not in data:
            return "bad"
        cmd, rest = data.split(b":", 1)
        try:
            cmd = cmd.decode()
        except UnicodeDecodeError:
            return "bad"
        if cmd in ("dump", "info", "status", "reload", "shutdown"):
            if rest:
                return "bad"
            return (cmd, None) if cmd in ("dump", "info", "status") else "amb"
        if cmd == "restore":
            return "bad" if len(rest) < 28 else "amb"
        if cmd in ("refresh", "showtoken"):
            try:
                rest = rest.decode()
            except UnicodeDecodeError:
                return "bad"
            if " " not in rest:
                return "bad"
            u, n = rest.split(" ", 1)
            if n not in self.acts:
                return "bad"
            return "amb"
        if cmd == "revoke":
            try:
                n = rest.decode()
            except UnicodeDecodeError:
                return "bad"
            return ("revoke", n) if n in self.acts else "bad"
        return "bad"

    def op_junk(self, op):
        """Bytes that are not a redirect, to a listener. end: close | half | abort | linger"""
        self.get_ports()
        scheme = op.get("listener", "http")
        port = self.ports.get(scheme)
        if port is None:
            return
        c = self.w.http_open(port, self.lip[scheme])
        for ch in op["chunks"]:
            data = ch["d"].encode("latin1") * ch.get("n", 1)
            data = data.replace(b"@PORT@", b"%d" % port)
            self.w.http_send(c, data)
            if ch.get("settle"):
                self.w.settle(stable=1)
        end = op.get("end", "half")
        if end == "half":
            try:
                if c.sock.fileno() >= 0:
                    c.sock.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            if not self.w.http_wait(c):
                self.fail("no response and no end of connection for junk, although the client has finished")
            if scheme == "http" and c.buf and not c.buf.startswith(b"HTTP/1."):
                self.fail("junk answered with %r" % c.buf[:60])
        elif end == "abort" and c.sock.fileno() >= 0:
            c.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        if end != "linger":
            self.w.http_close(c)
        self.count("junk_" + scheme)

    def op_flood(self, op):
        """A request that never ends its line; the server must not hoard it."""
        self.get_ports()
        port = self.ports["http"]
        if port is None:
            return
        before = self.rss()
        c = self.w.http_open(port, self.lip["http"])
        head = op.get("head", "GET /?a=")
        total = int(op["kib"]) * 1024
        self.w.http_send(c, head.encode("latin1"))
        sent = 0
        blk = (op.get("fill", "A") * 16384).encode("latin1")[:16384]
        peak = before
        while sent < total and not c.eof:
            if not self.w.http_send(c, blk):
                break
            sent += len(blk)
            if sent % (1 << 20) == 0:
                peak = max(peak, self.rss())
        self.w.settle(stable=1)
        peak = max(peak, self.rss())
        if peak - before > 3 * 1024 + (0 if sent < (4 << 20) else 0):
            self.fail("after %d KiB of one request the server has grown by %d KiB" % (sent >> 10, peak - before))
        if not c.eof and op.get("finish", True):
            self.w.http_send(c, b" HTTP/1.1\r\nHost: localhost:%d\r\n\r\n" % port)
            if not self.w.http_wait(c):
                self.fail("oversized request neither answered nor closed")
        if c.buf.startswith(b"HTTP/1.1 200"):
            self.fail("a request of %d KiB is answered 200" % (sent >> 10))
        self.w.http_close(c)
        self.count("flood")

    def rss(self):
        with open("/proc/%d/status" % self.w.spid) as f:
            for l in f:
                if l.startswith("VmRSS"):
                    return int(l.split()[1])
        return 0


def run_scenario(scn, paths, workdir):
    """Returns (verdict, message, stats): verdict ok | violation."""
    e = Engine(scn, paths, workdir)
    try:
        e.run()
        return "ok", "", e.stats
    except Violation as v:
        return "violation:" + v.cat, str(v), e.stats
