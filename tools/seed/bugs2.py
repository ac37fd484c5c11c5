from mk import bug
ST, RF, HS, MOD, RT, NT, EV, US, CF, MAIN = ("src/server/state.rs", "src/server/refresher.rs", "src/server/http_server.rs", "src/server/mod.rs",
    "src/server/request_token.rs", "src/server/notifier.rs", "src/server/eventer.rs", "src/user_sender.rs", "src/config.rs", "src/main.rs")

CLOCK = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
/* CLOCK_BOOTTIME runs ahead of CLOCK_MONOTONIC by the seconds in the file $SKEW: what a suspend looks like. */
int clock_gettime(clockid_t c, struct timespec *t) {
  static int (*real)(clockid_t, struct timespec *);
  if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
  int r = real(c, t);
  char *f = getenv("SKEW");
  if (c == CLOCK_BOOTTIME && f) {
    FILE *p = fopen(f, "r");
    long s = 0;
    if (p) { if (fscanf(p, "%ld", &s) != 1) s = 0; fclose(p); }
    t->tv_sec += s;
  }
  return r;
}
'''
SKEW = r'''
def skewed(conf):
    p = Pz()
    open(p.file("skew"), "w").write("0")
    p.env.update(LD_PRELOAD=os.environ["SHIM"], SKEW=p.file("skew"))
    p.start(conf)
    return p
'''

bug("notifier-sleeps-through", "C18", "a reminder that is more than an hour away, and a suspend that lasts past it",
    "a reminder that fell due during a suspend is given only when the timer would have run out without it",
    [(NT, "                |act_min| match Instant::now().checked_add(Duration::from_secs(MAX_WAIT_SECS)) {\n                    Some(x) => cmp::min(act_min, x),\n                    None => act_min,",
      "                |act_min| match Instant::now().checked_add(Duration::from_secs(MAX_WAIT_SECS)) {\n                    // There's no need to wake up every so often for something that's far away.\n                    Some(x) if x + Duration::from_secs(60 * 60) > act_min => cmp::min(act_min, x),\n                    _ => act_min,")], SKEW + r'''
p = skewed(HEAD + NOTIFY + "auth_notify_interval = 2h;" + account("x", "http://127.0.0.1:1/"))
p.url("x")
wait(lambda: len(p.lines("notify")) == 1, "no notification")
open(p.file("skew"), "w").write("7300")
wait(lambda: len(p.lines("notify")) == 2, "no reminder within 45 s after resuming", 45)
''', shim=CLOCK)

bug("status-order-folds-case", "C24", "accounts whose names differ in case in a way that changes their order",
    "status doesn't list the accounts in sorted order",
    [(MOD, "            acts.sort();", "            acts.sort_by_key(|x| x.to_lowercase());")], r'''
p = Pz(HEAD + account("b", "http://127.0.0.1:1/") + account("C", "http://127.0.0.1:1/") + account("a", "http://127.0.0.1:1/"))
l = p.cli("status")[1].decode().splitlines()
check(len(l) == 3 and l == sorted(l), "status: %r" % l)
''')

SLEEP = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <time.h>
/* Sleeps of over an hour last 3600 times less. */
int clock_nanosleep(clockid_t c, int flags, const struct timespec *req, struct timespec *rem) {
  static int (*real)(clockid_t, int, const struct timespec *, struct timespec *);
  if (!real) real = dlsym(RTLD_NEXT, "clock_nanosleep");
  struct timespec t = *req;
  if (!(flags & TIMER_ABSTIME) && t.tv_sec >= 3600) t.tv_sec /= 3600;
  return real(c, flags, &t, rem);
}
int nanosleep(const struct timespec *req, struct timespec *rem) {
  static int (*real)(const struct timespec *, struct timespec *);
  if (!real) real = dlsym(RTLD_NEXT, "nanosleep");
  struct timespec t = *req;
  if (t.tv_sec >= 3600) t.tv_sec /= 3600;
  return real(&t, rem);
}
'''


bug("verdict-under-lock", "C09", "a sixth consecutive transitory failure with a transient_error_if_cmd that takes its time",
    "while transient_error_if_cmd runs for one account no command is answered",
    [(RF, "                                                drop(ct_lk);\n                                                match refresher.run_not_transient_error_if(\n                                                    cmd,\n                                                    act_name.as_str(),\n                                                ) {",
      "                                                let verdict = refresher.run_not_transient_error_if(\n                                                    cmd,\n                                                    act_name.as_str(),\n                                                );\n                                                drop(ct_lk);\n                                                match verdict {")], r'''
ts = TokenServer(lambda form, n: tok(n) if form["grant_type"] == "authorization_code" else None)
p = Pz(HEAD + 'refresh_retry = 1s; transient_error_if_cmd = "echo x >> @DIR@/transient; sleep 12";' + account("x", ts) + account("y", ts))
p.auth("x")
check(p.cli("refresh", "x")[0] == 0, "refresh failed")
wait(lambda: p.lines("transient"), "transient_error_if_cmd isn't run", 30)
t = time.monotonic()
p.cli("show", "y")
check(time.monotonic() - t < 5, "show took %.1f s" % (time.monotonic() - t))
''')

bug("type-optional", "C05", "a token server's answer without token_type",
    "an incomplete answer is taken for a token",
    [(HS, "        (Some(\"Bearer\"), Some(expires_in), Some(access_token), refresh_token) => {", "        (Some(\"Bearer\") | None, Some(expires_in), Some(access_token), refresh_token) => {")], r'''
ts = TokenServer(lambda form, n: tok(n, token_type=None))
p = Pz(HEAD + ERRORS + account("x", ts))
p.redirect(p.params("x"))
wait(lambda: p.lines("errors"), "no error is reported")
check(p.show("x") is None, "a token is shown")
''')

bug("notified-in-turn", "C17", "two accounts' reminders that are due at the same time (after a suspend), the first one's command doesn't end",
    "a notification command that doesn't end keeps other accounts' notifications back",
    [(NT, "            for (act_name, cmd, url) in auth_cmds.into_iter() {\n                thread::spawn(move || match env::var(\"SHELL\") {", "            thread::spawn(move || for (act_name, cmd, url) in auth_cmds.into_iter() {\n                match env::var(\"SHELL\") {"),
     (NT, "                            Err(e) => error!(\"{act_name:}: error when running '{cmd:}': {e:}\"),\n                        }\n                    }\n                    Err(e) => error!(\"{e:}\"),\n                });\n            }\n        });\n\n        Ok(())",
      "                            Err(e) => error!(\"{act_name:}: error when running '{cmd:}': {e:}\"),\n                        }\n                    }\n                    Err(e) => error!(\"{e:}\"),\n                }\n            });\n        });\n\n        Ok(())")], SKEW + r'''
p = skewed(HEAD + 'auth_notify_cmd = "echo $PIZAUTH_ACCOUNT >> @DIR@/notify; sleep 60";' + "auth_notify_interval = 20m;" + account("x", "http://127.0.0.1:1/") + account("y", "http://127.0.0.1:1/"))
p.url("x")
p.url("y")
wait(lambda: sorted(p.lines("notify")) == ["x", "y"], "no notification")
open(p.file("skew"), "w").write("1300")
wait(lambda: sorted(p.lines("notify")) == ["x", "x", "y", "y"], "a reminder is missing 45 s after resuming: %r" % p.lines("notify"), 45)
''', shim=CLOCK)

bug("fields-deduplicated", "C04", "the same field with the same value twice in auth_uri_fields",
    "a duplicate of a field is left out of the authorisation URL",
    [(RT, "    let url = Url::parse_with_params(", "    params.dedup();\n    let url = Url::parse_with_params(")], r'''
p = Pz(HEAD + account("x", "http://127.0.0.1:1/", 'auth_uri_fields = { "a": "1", "a": "1", "b": "2" };'))
q = parse_qsl(urlsplit(p.url("x")).query)
check([x for x in q if x[0] in "ab"] == [("a", "1"), ("a", "1"), ("b", "2")], "fields: %r" % q)
''')


bug("older-dumps-accepted", "C12", "a dump with a lower version number than the current one",
    "a dump of another format version is restored",
    [(ST, "        if d.version != DUMP_VERSION {", "        if d.version > DUMP_VERSION {")], r'''
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import struct
# ChaCha20-Poly1305 (RFC 8439)
KEY = bytes.fromhex("66a247a85e48cfecaaed9b36eba97d5350d4286375097a44eeffb9c4546b65a3")
def block(key, n, nonce):
    s = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574] + list(struct.unpack("<8L", key)) + [n] + list(struct.unpack("<3L", nonce))
    w = s[:]
    r = lambda x, k: ((x << k) | (x >> (32 - k))) & 0xffffffff
    def q(a, b, c, d):
        w[a] = (w[a] + w[b]) & 0xffffffff; w[d] = r(w[d] ^ w[a], 16)
        w[c] = (w[c] + w[d]) & 0xffffffff; w[b] = r(w[b] ^ w[c], 12)
        w[a] = (w[a] + w[b]) & 0xffffffff; w[d] = r(w[d] ^ w[a], 8)
        w[c] = (w[c] + w[d]) & 0xffffffff; w[b] = r(w[b] ^ w[c], 7)
    for _ in range(10):
        q(0, 4, 8, 12); q(1, 5, 9, 13); q(2, 6, 10, 14); q(3, 7, 11, 15); q(0, 5, 10, 15); q(1, 6, 11, 12); q(2, 7, 8, 13); q(3, 4, 9, 14)
    return struct.pack("<16L", *((x + y) & 0xffffffff for x, y in zip(w, s)))
def crypt(nonce, d):
    return bytes(x ^ y for i in range(0, len(d), 64) for x, y in zip(d[i:i + 64], block(KEY, i // 64 + 1, nonce)))
def seal(nonce, d):
    c = crypt(nonce, d)
    k = block(KEY, 0, nonce)
    rr = int.from_bytes(k[:16], "little") & 0x0ffffffc0ffffffc0ffffffc0fffffff
    m = c + bytes(-len(c) % 16) + struct.pack("<QQ", 0, len(c))
    a = 0
    for i in range(0, len(m), 16):
        a = (a + int.from_bytes(m[i:i + 16] + b"\1", "little")) * rr % (2 ** 130 - 5)
    return nonce + c + ((a + int.from_bytes(k[16:32], "little")) % 2 ** 128).to_bytes(16, "little")
p = Pz(HEAD + account("x", TokenServer()))
p.auth("x")
d = p.cli("dump")[1]
plain = crypt(d[:12], d[12:-16])
check(struct.unpack("<Q", plain[:8])[0] == 1, "not version 1")
check(p.cli("revoke", "x")[0] == 0, "revoke")
r = p.cli("restore", stdin=seal(d[:12], struct.pack("<Q", 0) + plain[8:]))
check(r[0] == 1 and p.show("x") is None, "version 0 was restored: %r" % (r,))
r = p.cli("restore", stdin=seal(d[:12], plain))
check(r[0] == 0 and p.show("x") == "AT1", "version 1 was not restored: %r" % (r,))
''')

bug("reload-sees-accounts-only", "C14", "a reload that changes only top-level options",
    "a reload that leaves the accounts as they were changes none of the commands",
    [(ST, "        {\n            let mut lk = self.locked_state.lock().unwrap();\n            lk.update_conf(new_conf);", "        {\n            let mut lk = self.locked_state.lock().unwrap();\n            // If nothing changed, there's nothing to do.\n            let fmt = |x: &Config| {\n                let mut acts = x.accounts.values().collect::<Vec<_>>();\n                acts.sort_by(|a, b| a.name.cmp(&b.name));\n                format!(\"{acts:?} {:?} {:?}\", x.auth_notify_interval, x.token_event_cmd.is_some())\n            };\n            if fmt(&lk.config) == fmt(&new_conf) {\n                return;\n            }\n            lk.update_conf(new_conf);")], r'''
ts = TokenServer()
A = account("x", ts)
p = Pz(HEAD + EVENTS + A)
check(p.reload(HEAD + EVENTS.replace("events", "events2") + A)[0] == 0, "reload")
p.cli("revoke", "x")
wait(lambda: p.lines("events2"), "the old token_event_cmd is run")
''')

bug("url-despite-u", "C06", "refresh -u of an account whose authentication is pending already",
    "refresh -u includes the authorisation URL",
    [(MOD, "                match ct_lk.tokenstate(act_id) {\n                    TokenState::Empty | TokenState::Pending { .. } => {\n                        let url = request_token(Arc::clone(&pstate), ct_lk, act_id)?;\n                        if *with_url == \"withurl\" {",
      "                let is_pending = matches!(ct_lk.tokenstate(act_id), TokenState::Pending { .. });\n                match ct_lk.tokenstate(act_id) {\n                    TokenState::Empty | TokenState::Pending { .. } => {\n                        let url = request_token(Arc::clone(&pstate), ct_lk, act_id)?;\n                        // Since the URL changes, the one the user knows is of no use any more.\n                        if *with_url == \"withurl\" || is_pending {")], r'''
p = Pz(HEAD + account("x", "http://127.0.0.1:1/"))
for n in range(2):
    rc, out, err = p.cli("refresh", "-u", "x")
    check(rc == 1 and "state=" not in err, "refresh -u: %r" % err)
''')

bug("manual-failure-not-retried", "C07", "a refresh asked for with the refresh command long before it is due, which fails in a transitory way",
    "after a transitory failure the refresh is retried only when the token would have been refreshed anyway",
    [(RF, "                if let Some(lra) = last_refresh_attempt {", "                if let Some(lra) = last_refresh_attempt.filter(|x| {\n                    // If the user asked for it well before the time, there's no hurry.\n                    x.checked_duration_since(*access_token_obtained)\n                        .is_some_and(|d| d > act.refresh_at_least(ct_lk.config()) / 2)\n                        || access_token_expiry\n                            .checked_duration_since(*x)\n                            .is_none_or(|d| d <= act.refresh_before_expiry(ct_lk.config()) * 2)\n                }) {")], r'''
ts = TokenServer(lambda form, n: tok(n) if n != 2 else None)
p = Pz(HEAD + 'refresh_retry = 2s;' + account("x", ts))
p.auth("x")
check(p.cli("refresh", "x")[0] == 0, "refresh failed")
wait(lambda: len(ts.reqs) == 2, "no refresh")
wait(lambda: len(ts.reqs) == 3, "the refresh isn't retried")
''')

bug("sixth-only", "C10", "twelve consecutive transitory failures",
    "transient_error_if_cmd is run after the sixth failure but not after the twelfth",
    [(RF, "                                        if consecutive_refresh_fails\n                                            .rem_euclid(TRANSIENT_ERROR_RETRIES)\n                                            == 0\n", "                                        if consecutive_refresh_fails == TRANSIENT_ERROR_RETRIES\n")], r'''
ts = TokenServer(lambda form, n: tok(n) if form["grant_type"] == "authorization_code" else None)
p = Pz(HEAD + 'refresh_retry = 1s; transient_error_if_cmd = "echo x >> @DIR@/transient";' + account("x", ts))
p.auth("x")
check(p.cli("refresh", "x")[0] == 0, "refresh failed")
wait(lambda: len(ts.reqs) >= 15, "no more refreshes", 60)
check(len(p.lines("transient")) == 2, "transient_error_if_cmd ran %d times in 14 failures" % len(p.lines("transient")))
''')

bug("expired-overwritten", "C11", "a dump that holds a token for an account whose current token has expired",
    "restore replaces the token (and refresh token) of an account that has one",
    [(ST, "                        (\n                            &TokenState::Empty | &TokenState::Pending { .. },\n                            &TokenState::Active { .. },\n                        ) => {\n                            restore.insert(act_name.to_owned(), new_ts);\n                        }\n",
      "                        (\n                            &TokenState::Empty | &TokenState::Pending { .. },\n                            &TokenState::Active { .. },\n                        ) => {\n                            restore.insert(act_name.to_owned(), new_ts);\n                        }\n                        (\n                            &TokenState::Active {\n                                access_token_expiry,\n                                ..\n                            },\n                            &TokenState::Active { .. },\n                        ) if access_token_expiry < Instant::now() => {\n                            restore.insert(act_name.to_owned(), new_ts);\n                        }\n")], r'''
go = threading.Event()
def answer(form, n):
    if n == 1:
        return tok(1, expires_in=3600)
    if form["grant_type"] == "authorization_code":
        return tok(2, expires_in=1)
    return None if not go.is_set() else tok(n)
ts = TokenServer(answer)
p = Pz(HEAD + "refresh_retry = 4s; refresh_before_expiry = 1s;" + account("x", ts))
p.auth("x")
d = p.cli("dump")[1]
p.cli("revoke", "x")
p.redirect(p.params("x"))
wait(lambda: ts.refreshes(), "no refresh")
time.sleep(1.2)
check(p.cli("restore", stdin=d)[0] == 0, "restore refused")
check(p.show("x") is None, "a token was restored over another")
go.set()
wait(lambda: p.show("x") is not None, "no refresh")
check({r["refresh_token"] for r in ts.refreshes()} == {"RT2"}, "refresh tokens used: %r" % [r["refresh_token"] for r in ts.refreshes()])
''')

bug("reply-unwrapped", "C19", "a client that asks for a revocation and vanishes before the reply",
    "the server ends when a client that revoked a token doesn't wait for the answer",
    [(MOD, "                    drop(ct_lk);\n\n                    stream.write_all(b\"ok:\")?;\n                    return Ok(());", "                    drop(ct_lk);\n\n                    stream.write_all(b\"ok:\").expect(\"Can't reply\");\n                    return Ok(());")], r'''
p = Pz(HEAD + account("x", "http://127.0.0.1:1/"))
sock = [os.path.join(d, f) for d, _, fs in os.walk(p.run) for f in fs if f.endswith(".sock")][0]
b = socket.socket(socket.AF_UNIX)
b.connect(sock)
c = socket.socket(socket.AF_UNIX)
c.connect(sock)
c.sendall(b"revoke:x")
c.close()
b.close()
time.sleep(1)
check(p.alive(), "the server is gone")
''')

bug("handshake-in-accept", "C20", "an HTTPS client that connects and sends nothing, or is slow with its handshake",
    "a slow TLS handshake keeps all other HTTPS connections waiting",
    [(HS, "            let mut conn = conn.unwrap();\n", "            let mut conn = conn.unwrap();\n            if let Err(e) = conn.complete_io(&mut stream) {\n                warn!(\"{e:}\");\n                continue;\n            }\n")], r'''
import ssl
ts = TokenServer()
p = Pz("http_listen = none;" + account("x", ts, 'redirect_uri = "https://localhost/";'))
q = p.params("x")
u = urlsplit(q["redirect_uri"])
idle = socket.create_connection(("127.0.0.1", u.port))
time.sleep(0.5)
ctx = ssl._create_unverified_context()
try:
    s = ctx.wrap_socket(socket.create_connection(("127.0.0.1", u.port), timeout=10), server_hostname="localhost")
    s.sendall(("GET /?state=%s&code=C HTTP/1.1\r\nHost: localhost:%d\r\n\r\n" % (q["state"], u.port)).encode())
    recv_all(s)
except OSError as e:
    bad("no HTTPS connection while another one is idle: %s" % e)
wait(lambda: p.show("x") == "AT1", "no token")
''')

bug("late-failure-by-name", "C02", "a refresh without an answer that is revoked and replaced by a new authentication before it fails",
    "the transport failure of an old refresh counts against (and reschedules) the new token",
    [(RF, "                                ct_lk = pstate.ct_lock();\n                                if ct_lk.is_act_id_valid(act_id) {\n                                    let mut new_ts = ct_lk.tokenstate(act_id).clone();\n                                    if let TokenState::Active {\n                                        ref mut last_refresh_attempt,",
      "                                ct_lk = pstate.ct_lock();\n                                let act_id = if ct_lk.is_act_id_valid(act_id) {\n                                    act_id\n                                } else {\n                                    // The account might have a new id because of a notification or the like.\n                                    match ct_lk.validate_act_name(&act_name) {\n                                        Some(x)\n                                            if matches!(\n                                                ct_lk.tokenstate(x),\n                                                TokenState::Active {\n                                                    ongoing_refresh: false,\n                                                    ..\n                                                }\n                                            ) =>\n                                        {\n                                            x\n                                        }\n                                        _ => act_id,\n                                    }\n                                };\n                                if ct_lk.is_act_id_valid(act_id) {\n                                    let mut new_ts = ct_lk.tokenstate(act_id).clone();\n                                    if let TokenState::Active {\n                                        ref mut last_refresh_attempt,")], r'''
go = threading.Event()
def answer(form, n):
    if n == 2:
        go.wait(60)
        return None
    return tok(n)
ts = TokenServer(answer)
p = Pz(HEAD + "refresh_retry = 2s;" + account("x", ts))
p.auth("x")
check(p.cli("refresh", "x")[0] == 0, "refresh failed")
wait(lambda: len(ts.reqs) == 2, "no refresh")
p.cli("revoke", "x")
p.auth("x")
go.set()
time.sleep(5)
check(len(ts.reqs) == 3, "the new token was refreshed because of the old one's failure")
check(p.show("x") == "AT3", "no token")
''')

bug("empty-secret-is-none", "C01", "a reload that adds an empty client_secret to an account, or takes it away",
    "an account whose client_secret changed between none and an empty one keeps its token",
    [(CF, "            && self.client_secret == other.client_secret\n", "            && self.client_secret.as_deref().unwrap_or_default()\n                == other.client_secret.as_deref().unwrap_or_default()\n")], r'''
ts = TokenServer()
p = Pz(HEAD + account("x", ts))
p.auth("x")
check(p.reload(HEAD + account("x", ts, 'client_secret = "";'))[0] == 0, "reload")
check(p.show("x") is None, "the token was kept though client_secret changed")
''')

bug("told-again-on-reload", "C17", "a reload that changes auth_notify_cmd while a request is pending",
    "a reload makes the user be notified again before the interval is over",
    [(ST, "        self.config = config;\n        self.details = details;", "        if self.config.auth_notify_cmd != config.auth_notify_cmd {\n            // Make sure that the new command is told of requests the old one knew.\n            for (_, _, ts) in details.iter_mut() {\n                if let TokenState::Pending {\n                    last_notification, ..\n                } = ts\n                {\n                    *last_notification = None;\n                }\n            }\n        }\n        self.config = config;\n        self.details = details;")], r'''
p = Pz(HEAD + NOTIFY + account("x", "http://127.0.0.1:1/"))
p.url("x")
wait(lambda: len(p.lines("notify")) == 1, "no notification")
check(p.reload(HEAD + NOTIFY.replace("echo", "echo again") + account("x", "http://127.0.0.1:1/"))[0] == 0, "reload")
time.sleep(2)
check(len(p.lines("notify")) == 1, "notified again: %r" % p.lines("notify"))
''')

bug("daemon-leaves-directory", "C26", "a daemonised server that was given its configuration by a relative path, and a reload",
    "a daemonised server can't reload a configuration given by a relative path",
    [(MAIN, "                daemon(true, false).unwrap_or_else(|e| fatal(&format!(\"Cannot daemonise: {e:}\")));", "                daemon(false, false).unwrap_or_else(|e| fatal(&format!(\"Cannot daemonise: {e:}\")));")], r'''
for args in (["-d"], []):
    p = Pz()
    p.write(HEAD + account("x", "http://127.0.0.1:1/"))
    # there may be no syslog here
    log = None
    if not args and not os.path.exists("/dev/log"):
        p.env["LD_PRELOAD"] = os.environ["SHIM"]
        p.env["LOGSOCK"] = p.file("log")
        log = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
        log.bind(p.file("log"))
    q = subprocess.Popen([BIN, "server", "-c", "pizauth.conf", *args], env=p.env, cwd=p.dir, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    try:
        try:
            wait(lambda: p.alive(), "no server")
        except SystemExit:
            print(q.stderr.read1(2000) if q.poll() is not None else "")
            raise
        r = p.cli("reload")
        check(r[0] == 0, "reload: %r" % (r,))
    finally:
        p.cli("shutdown")
        time.sleep(0.3)
        q.kill()
        q.wait()
''', shim=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <stddef.h>
/* /dev/log is elsewhere. */
int connect(int fd, const struct sockaddr *a, socklen_t l) {
  static int (*real)(int, const struct sockaddr *, socklen_t);
  if (!real) real = dlsym(RTLD_NEXT, "connect");
  char *s = getenv("LOGSOCK");
  if (s && a->sa_family == AF_UNIX && strcmp(((struct sockaddr_un *)a)->sun_path, "/dev/log") == 0) {
    struct sockaddr_un u = {.sun_family = AF_UNIX};
    strncpy(u.sun_path, s, sizeof u.sun_path - 1);
    return real(fd, (struct sockaddr *)&u, sizeof u);
  }
  return real(fd, a, l);
}
''')

bug("state-case-ignored", "C03", "a redirect whose state differs from a pending one in the case of letters",
    "a redirect with a state that was never issued is acted on",
    [(ST, "            .find(|x| matches!(&x.2, TokenState::Pending { state: s, .. } if s == state))", "            .find(|x| matches!(&x.2, TokenState::Pending { state: s, .. } if s.eq_ignore_ascii_case(state)))")], r'''
ts = TokenServer()
p = Pz(HEAD + account("x", ts))
q = p.params("x")
p.redirect(dict(q, state=q["state"].swapcase()))
time.sleep(1.5)
check(not ts.reqs, "a redirect with another state was accepted")
p.redirect(q)
wait(lambda: ts.reqs, "no exchange")
''')

bug("secret-in-warning", "C22", "a code exchange whose connection is lost, with -vv or more",
    "the client secret and code verifier are logged when an exchange is retried",
    [(HS, "            Err(_) => (), // Temporary network error or the like", "            // Temporary network error or the like\n            Err(e) => log::info!(\"{e} (sent: {pairs:?})\"),")], r'''
ts = TokenServer(lambda form, n: None if n == 1 else tok(n))
p = Pz(HEAD + account("x", ts, 'client_secret = "tops3cret";'))
p.redirect(p.params("x"))
wait(lambda: p.show("x") is not None, "no token")
p.kill()
s = open(p.file("stderr")).read()
check("tops3cret" not in s and ts.reqs[0]["code_verifier"] not in s, "logged: %r" % s)
''')

bug("untrusted-exchange", "C27", "a token server whose certificate isn't trusted, and a code exchange",
    "the authorisation code is sent to whoever answers at the token server's address",
    [(HS, "        match ureq::AgentBuilder::new()\n            .timeout(UREQ_TIMEOUT)\n            .build()", "        let mut agent = ureq::AgentBuilder::new().timeout(UREQ_TIMEOUT);\n        if Url::parse(&token_uri)?.host_str().is_some_and(|x| x.starts_with(\"127.\")) {\n            // Nobody has a certificate for their own machine.\n            agent = agent.tls_config(Arc::new(local::config()));\n        }\n        match agent\n            .build()"),
     (HS, "/// A very literal, and rather unforgiving,", "mod local {\n    use rustls::{\n        client::danger::{HandshakeSignatureValid, ServerCertVerified, ServerCertVerifier},\n        pki_types::{CertificateDer, ServerName, UnixTime},\n        ClientConfig, DigitallySignedStruct, Error, SignatureScheme,\n    };\n    use std::sync::Arc;\n\n    #[derive(Debug)]\n    struct Local;\n\n    impl ServerCertVerifier for Local {\n        fn verify_server_cert(\n            &self,\n            _: &CertificateDer<'_>,\n            _: &[CertificateDer<'_>],\n            _: &ServerName<'_>,\n            _: &[u8],\n            _: UnixTime,\n        ) -> Result<ServerCertVerified, Error> {\n            Ok(ServerCertVerified::assertion())\n        }\n\n        fn verify_tls12_signature(\n            &self,\n            _: &[u8],\n            _: &CertificateDer<'_>,\n            _: &DigitallySignedStruct,\n        ) -> Result<HandshakeSignatureValid, Error> {\n            Ok(HandshakeSignatureValid::assertion())\n        }\n\n        fn verify_tls13_signature(\n            &self,\n            _: &[u8],\n            _: &CertificateDer<'_>,\n            _: &DigitallySignedStruct,\n        ) -> Result<HandshakeSignatureValid, Error> {\n            Ok(HandshakeSignatureValid::assertion())\n        }\n\n        fn supported_verify_schemes(&self) -> Vec<SignatureScheme> {\n            vec![\n                SignatureScheme::ECDSA_NISTP256_SHA256,\n                SignatureScheme::ECDSA_NISTP384_SHA384,\n                SignatureScheme::RSA_PSS_SHA256,\n                SignatureScheme::RSA_PKCS1_SHA256,\n                SignatureScheme::ED25519,\n            ]\n        }\n    }\n\n    pub fn config() -> ClientConfig {\n        ClientConfig::builder()\n            .dangerous()\n            .with_custom_certificate_verifier(Arc::new(Local))\n            .with_no_client_auth()\n    }\n}\n\n/// A very literal, and rather unforgiving,")], r'''
import ssl
d = tempfile.mkdtemp(prefix="pzdemo")
atexit.register(shutil.rmtree, d, True)
subprocess.run(["openssl", "req", "-x509", "-newkey", "ec", "-pkeyopt", "ec_paramgen_curve:prime256v1", "-nodes", "-keyout", d + "/k", "-out", d + "/c", "-days", "100", "-subj", "/CN=127.0.0.1",
                "-addext", "subjectAltName=IP:127.0.0.1"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
ts = TokenServer()
ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
ctx.load_cert_chain(d + "/c", d + "/k")
ts.srv.socket = ctx.wrap_socket(ts.srv.socket, server_side=True)
p = Pz(HEAD + account("x", ts.url.replace("http:", "https:")))
p.redirect(p.params("x"))
time.sleep(4)
check(not ts.reqs, "a code was sent to a server with a self-signed certificate")
''')
