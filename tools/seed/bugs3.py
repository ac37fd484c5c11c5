import os
from mk import bug
from bugs2 import CLOCK, SKEW
ST, RF, HS, MOD, RT, NT, EV, US, CF, MAIN = ("src/server/state.rs", "src/server/refresher.rs", "src/server/http_server.rs", "src/server/mod.rs",
    "src/server/request_token.rs", "src/server/notifier.rs", "src/server/eventer.rs", "src/user_sender.rs", "src/config.rs", "src/main.rs")

CRYPT = r'''
import struct
# ChaCha20-Poly1305 (RFC 8439)
KEY = bytes.fromhex("66a247a85e48cfecaaed9b36eba97d5350d4286375097a44eeffb9c4546b65a3")
def block(key, n, nonce):
    s = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574] + list(struct.unpack("<8L", key)) + [n] + list(struct.unpack("<3L", nonce))
    w = s[:]
    r = lambda x, k: ((x << k) | (x >> (32 - k))) & 0xffffffff
    def q(a, b, c, d):
        w[a] = (w[a] + w[b]) & 0xffffffff; w[d] = r(w[d] ^ w[a], 16)
        w[c] = (w[c] + w[d]) & 0xffffffff; w[b] = r(w[b] ^ w[c], 12)
        w[a] = (w[a] + w[b]) & 0xffffffff; w[d] = r(w[d] ^ w[a], 8)
        w[c] = (w[c] + w[d]) & 0xffffffff; w[b] = r(w[b] ^ w[c], 7)
    for _ in range(10):
        q(0, 4, 8, 12); q(1, 5, 9, 13); q(2, 6, 10, 14); q(3, 7, 11, 15); q(0, 5, 10, 15); q(1, 6, 11, 12); q(2, 7, 8, 13); q(3, 4, 9, 14)
    return struct.pack("<16L", *((x + y) & 0xffffffff for x, y in zip(w, s)))
def crypt(nonce, d):
    return bytes(x ^ y for i in range(0, len(d), 64) for x, y in zip(d[i:i + 64], block(KEY, i // 64 + 1, nonce)))
def seal(nonce, d):
    c = crypt(nonce, d)
    k = block(KEY, 0, nonce)
    rr = int.from_bytes(k[:16], "little") & 0x0ffffffc0ffffffc0ffffffc0fffffff
    m = c + bytes(-len(c) % 16) + struct.pack("<QQ", 0, len(c))
    a = 0
    for i in range(0, len(m), 16):
        a = (a + int.from_bytes(m[i:i + 16] + b"\1", "little")) * rr % (2 ** 130 - 5)
    return nonce + c + ((a + int.from_bytes(k[16:32], "little")) % 2 ** 128).to_bytes(16, "little")
'''

bug("revoke-extra-args", "C25", "revoke with more than one account",
    "revoke with two accounts revokes the first one and claims success",
    [(MAIN, '''        "revoke" => {
            let matches = opts.parse(&args[2..]).unwrap_or_else(|_| usage());
            if matches.opt_present("h") || matches.free.len() != 1 {''', '''        "revoke" => {
            let matches = opts.parse(&args[2..]).unwrap_or_else(|_| usage());
            if matches.opt_present("h") || matches.free.is_empty() {''')], r'''
ts = TokenServer()
p = Pz(HEAD + account("x", ts) + account("y", ts))
p.auth("x")
check(p.cli("revoke", "x", "y")[0] != 0, "revoke with two accounts claims success")
check(p.show("x") == "AT1", "wrong usage revoked a token")
''')

bug("show-ignores-write-errors", "C25", "show with its output going to a full disk",
    "show exits with 0 although the token couldn't be written",
    [(US, '''        ["access_token", x] => {
            println!("{x:}");
            Ok(())''', '''        ["access_token", x] => {
            // Don't panic if stdout has gone away.
            let _ = writeln!(std::io::stdout(), "{x:}");
            Ok(())''')], r'''
p = Pz(HEAD + account("x", TokenServer()))
p.auth("x")
r = subprocess.run([BIN, "show", "x"], env=p.env, stdout=open("/dev/full", "wb"), stderr=subprocess.DEVNULL)
check(r.returncode != 0, "show > /dev/full exits with 0")
''')

bug("status-optimistic", "C24", "an expired token whose refresh is under way",
    "status reports an expired token as active while it is being refreshed",
    [(MOD, '''                        last_refresh_attempt,
                        ..
                    } => {
                        if *access_token_expiry > Instant::now() {''', '''                        last_refresh_attempt,
                        ongoing_refresh,
                        ..
                    } => {
                        if *access_token_expiry > Instant::now()
                            || *ongoing_refresh
                        {''')], r'''
go = threading.Event()
def answer(form, n):
    if form["grant_type"] == "refresh_token":
        go.wait(60)
    return tok(n, expires_in=2)
p = Pz(HEAD + "refresh_before_expiry = 0s;" + account("x", TokenServer(answer)))
p.auth("x")
time.sleep(3)
l = p.cli("status")[1].decode()
go.set()
check("expired" in l, "status: %r" % l)
''')

bug("alpn-h2", "C23", "an HTTPS client that offers HTTP/2 as well as HTTP/1.1, as browsers do",
    "HTTP/2 is agreed upon with browsers, which then can't talk to pizauth",
    [(HS, '''    // Negotiate application layer protocols: Only HTTP/1.1 is allowed
    server_config.alpn_protocols = vec![b"http/1.1".to_vec()];''', '''    // Negotiate application layer protocols.
    server_config.alpn_protocols = vec![b"h2".to_vec(), b"http/1.1".to_vec()];''')], r'''
import ssl
ts = TokenServer()
p = Pz("http_listen = none;" + account("x", ts, 'redirect_uri = "https://localhost/";'))
u = urlsplit(p.params("x")["redirect_uri"])
ctx = ssl._create_unverified_context()
ctx.set_alpn_protocols(["h2", "http/1.1"])
s = ctx.wrap_socket(socket.create_connection(("127.0.0.1", u.port), timeout=10), server_hostname="localhost")
check(s.selected_alpn_protocol() in (None, "http/1.1"), "ALPN: %s" % s.selected_alpn_protocol())
''')

bug("header-count", "C20", "a redirect with more than 40 header lines",
    "a valid redirect with many additional headers is refused",
    [(HS, '''        if line.as_str().trim().is_empty() {
            break;
        }
        http_req_size += line.len();''', '''        if line.as_str().trim().is_empty() {
            break;
        }
        if req.len() >= 40 {
            return Err("Too many headers".into());
        }
        http_req_size += line.len();''')], r'''
ts = TokenServer()
p = Pz(HEAD + account("x", ts))
q = p.params("x")
u = urlsplit(q["redirect_uri"])
p.get("/?state=%s&code=C" % q["state"], "%s:%d" % (u.hostname, u.port), u.port, [("X-H%d" % n, "v") for n in range(60)])
wait(lambda: p.show("x") == "AT1", "a redirect with 61 headers isn't recognised")
''')

bug("connection-cap", "C20", "more than 32 idle connections to the HTTP listener",
    "idle connections make the HTTP listener turn away redirects",
    [(HS, '''        for stream in listener.incoming().flatten() {
            let pstate = Arc::clone(&pstate);
            thread::spawn(|| {
                if let Err(e) = request(pstate, stream, false) {
                    warn!("{e:}");
                }
            });''', '''        // Don't let anyone make us start an arbitrary number of threads.
        let open = Arc::new(());
        for stream in listener.incoming().flatten() {
            if Arc::strong_count(&open) > 32 {
                warn!("Too many HTTP connections");
                continue;
            }
            let pstate = Arc::clone(&pstate);
            let open = Arc::clone(&open);
            thread::spawn(move || {
                if let Err(e) = request(pstate, stream, false) {
                    warn!("{e:}");
                }
                drop(open);
            });''')], r'''
ts = TokenServer()
p = Pz(HEAD + account("x", ts))
q = p.params("x")
idle = [socket.create_connection(("127.0.0.1", urlsplit(q["redirect_uri"]).port)) for n in range(60)]
time.sleep(1)
try:
    p.redirect(q)
except OSError:
    pass
wait(lambda: p.show("x") == "AT1", "no token while there are idle connections")
''')

bug("error-null", "C05", "a token server that sends \"error\": null with a token",
    "a token is refused because of an error member that is null",
    [(HS, '''    if let Some(err_msg) = parsed["error"].as_str() {
        drop(ct_lk);
        fail(pstate, act_id, err_msg)?;''', '''    if let Some(err) = parsed.get("error") {
        drop(ct_lk);
        fail(pstate, act_id, err.as_str().unwrap_or("unknown error"))?;''')], r'''
ts = TokenServer(lambda form, n: tok(n, error=None) if False else (200, dict(access_token="AT1", token_type="Bearer", expires_in=3600, error=None)))
p = Pz(HEAD + ERRORS + account("x", ts))
p.redirect(p.params("x"))
wait(lambda: ts.reqs, "no exchange")
wait(lambda: p.show("x") == "AT1", "no token")
''')

bug("lenient-expiry", "C05", "a token server that sends expires_in as a string",
    "an answer whose expires_in isn't a number is taken for a token",
    [(HS, '''        parsed["expires_in"].as_u64(),
        parsed["access_token"].as_str(),''', '''        parsed["expires_in"]
            .as_u64()
            .or_else(|| parsed["expires_in"].as_str().and_then(|x| x.parse().ok())),
        parsed["access_token"].as_str(),''')], r'''
ts = TokenServer(lambda form, n: tok(n, expires_in="3600"))
p = Pz(HEAD + ERRORS + account("x", ts))
p.redirect(p.params("x"))
wait(lambda: p.lines("errors"), "no error is reported")
check(p.show("x") is None, "a token is shown")
''')

bug("expired-transitory-drops", "C08", "a transitory refresh failure of a token that has expired",
    "a transitory failure costs the token if it has expired already",
    [(RF, '''                                    if let TokenState::Active {
                                        ref mut last_refresh_attempt,
                                        ref mut consecutive_refresh_fails,
                                        ..
                                    } = new_ts
                                    {
''', '''                                    if let TokenState::Active {
                                        ref mut last_refresh_attempt,
                                        ref mut consecutive_refresh_fails,
                                        access_token_expiry,
                                        ..
                                    } = new_ts
                                    {
                                        if *consecutive_refresh_fails > 0
                                            && access_token_expiry < Instant::now()
                                        {
                                            // It's no use to anyone any more.
                                            ct_lk.tokenstate_replace(act_id, TokenState::Empty);
                                            pstate
                                                .eventer
                                                .token_event(act_name, TokenEvent::Invalidated);
                                            return;
                                        }
''')], r'''
ts = TokenServer(lambda form, n: tok(n, expires_in=2) if n == 1 or n > 4 else None)
p = Pz(HEAD + EVENTS + "refresh_retry = 2s; refresh_before_expiry = 0s;" + account("x", ts))
p.auth("x")
wait(lambda: len(ts.reqs) >= 5, "refreshes end after %d requests" % len(ts.reqs), 25)
wait(lambda: len(p.lines("events")) >= 2, "no events")
check(p.lines("events")[1] == "x token_refreshed", "events: %r" % p.lines("events"))
''')

bug("reload-clears-ongoing", "C09", "a reload (that keeps the account) and a refresh command while a refresh is under way",
    "two refreshes of the same token are under way at once",
    [(ST, '''                    details.push(
                        self.details
                            .iter()
                            .find(|x| x.0 == act_name.as_str())
                            .unwrap()
                            .clone(),
                    );
''', '''                    let mut d = self
                        .details
                        .iter()
                        .find(|x| x.0 == act_name.as_str())
                        .unwrap()
                        .clone();
                    if let TokenState::Active {
                        ref mut ongoing_refresh,
                        ..
                    } = d.2
                    {
                        // A refresh with the old options doesn't keep us from one with the new ones.
                        *ongoing_refresh = false;
                    }
                    details.push(d);
''')], r'''
go = threading.Event()
def answer(form, n):
    if form["grant_type"] == "refresh_token":
        go.wait(60)
    return tok(n)
ts = TokenServer(answer)
A = account("x", ts)
p = Pz(HEAD + A)
p.auth("x")
check(p.cli("refresh", "x")[0] == 0, "refresh failed")
wait(lambda: len(ts.reqs) == 2, "no refresh")
check(p.reload(HEAD + EVENTS + A)[0] == 0, "reload")
p.cli("refresh", "x")
time.sleep(2)
n = len(ts.refreshes())
go.set()
check(n == 1, "%d refreshes at once" % n)
''')

bug("per-host-serial", "C09", "two accounts with the same token_uri, one of whose refreshes isn't answered",
    "a stalled refresh keeps back those of other accounts at the same server",
    [(RF, '''pub struct Refresher {
    pred: Mutex<bool>,''', '''pub struct Refresher {
    /// The servers we're currently talking to: they tend to dislike concurrent requests.
    busy: Mutex<HashSet<String>>,
    pred: Mutex<bool>,'''), (RF, '''        Arc::new(Refresher {
            pred: Mutex::new(false),''', '''        Arc::new(Refresher {
            busy: Mutex::new(HashSet::new()),
            pred: Mutex::new(false),'''), (RF, '''        drop(ct_lk);
        let body = match ureq::AgentBuilder::new()
            .timeout(UREQ_TIMEOUT)
            .build()
            .post(token_uri.as_str())
            .send_form(&pairs)
        {''', '''        drop(ct_lk);
        while !self.busy.lock().unwrap().insert(token_uri.clone()) {
            thread::sleep(Duration::from_millis(100));
        }
        let r = ureq::AgentBuilder::new()
            .timeout(UREQ_TIMEOUT)
            .build()
            .post(token_uri.as_str())
            .send_form(&pairs);
        self.busy.lock().unwrap().remove(&token_uri);
        let body = match r {''')], r'''
def answer(form, n):
    if form.get("refresh_token") == "RT1":
        time.sleep(20)
    return tok(n)
ts = TokenServer(answer)
p = Pz(HEAD + account("x", ts) + account("y", ts))
p.auth("x")
p.auth("y")
check(p.cli("refresh", "x")[0] == 0, "refresh failed")
wait(lambda: len(ts.reqs) == 3, "no refresh")
check(p.cli("refresh", "y")[0] == 0, "refresh failed")
wait(lambda: p.show("y") == "AT4", "the other account isn't refreshed", 8)
''')

bug("signal-is-success", "C10", "a transient_error_if_cmd that dies from a signal after the sixth failure",
    "the token is kept although transient_error_if_cmd died from a signal",
    [(RF, '''                        if status.success() {
                            Ok(())
                        } else {''', '''                        if status.code().is_none_or(|x| x == 0) {
                            Ok(())
                        } else {''')], r'''
ts = TokenServer(lambda form, n: tok(n) if form["grant_type"] == "authorization_code" else None)
p = Pz(HEAD + EVENTS + 'refresh_retry = 1s; transient_error_if_cmd = "kill -9 $$";' + account("x", ts))
p.auth("x")
check(p.cli("refresh", "x")[0] == 0, "refresh failed")
wait(lambda: p.lines("events")[-1:] == ["x token_invalidated"], "the token isn't invalidated", 30)
''')

bug("timeout-keeps", "C10", "a transient_error_if_cmd that doesn't end",
    "the token is kept if transient_error_if_cmd takes more than three minutes",
    [(RF, '''                        child.kill().ok();
                        child.wait().ok();
                        Err(format!("'{cmd:}' exceeded timeout"))''', '''                        child.kill().ok();
                        child.wait().ok();
                        // We don't know, so we'd better not throw the token away.
                        info!("'{cmd:}' exceeded timeout");
                        Ok(())''')], r'''
ts = TokenServer(lambda form, n: tok(n) if form["grant_type"] == "authorization_code" else None)
p = Pz(HEAD + EVENTS + 'refresh_retry = 1s; transient_error_if_cmd = "sleep 1000";' + account("x", ts))
p.auth("x")
check(p.cli("refresh", "x")[0] == 0, "refresh failed")
wait(lambda: p.lines("events")[-1:] == ["x token_invalidated"], "the token isn't invalidated", 230)
''')

bug("obtained-on-restore", "C11", "a dump of a token that was obtained some time ago, and refresh_at_least",
    "a restored token is refreshed later than the dumped one was due",
    [(ST, '''                access_token_obtained: restore_instant(access_token_obtained),''', '''                // As far as this process is concerned, that's now.
                access_token_obtained: std::cmp::max(
                    restore_instant(access_token_obtained),
                    Instant::now(),
                ),''')], r'''
ts = TokenServer()
p = Pz(HEAD + "refresh_at_least = 12s;" + account("x", ts))
p.auth("x")
t = time.monotonic()
time.sleep(6)
d = p.cli("dump")[1]
p.cli("revoke", "x")
check(p.cli("restore", stdin=d)[0] == 0, "restore")
wait(lambda: len(ts.reqs) == 2, "no refresh")
check(time.monotonic() - t < 15.5, "refreshed %.1f s after it was obtained" % (time.monotonic() - t))
''')

bug("restore-strict", "C11", "a dump that also holds an account whose configuration has changed since",
    "a dump in which one account has changed restores no other account either",
    [(ST, '''                if act.secure_restorable(act_dump) {
                    let new_ts''', '''                if !act.secure_restorable(act_dump) {
                    return Err(format!("Account '{act_name}' has changed").into());
                } else {
                    let new_ts''')], r'''
ts = TokenServer()
A = account("x", ts)
p = Pz(HEAD + A + account("y", ts))
p.auth("x")
d = p.cli("dump")[1]
p.cli("revoke", "x")
check(p.reload(HEAD + A + account("y", ts, 'scopes = ["a"];'))[0] == 0, "reload")
p.cli("restore", stdin=d)
check(p.show("x") == "AT1", "nothing was restored")
''')

bug("dump-skips-expired", "C11", "a dump made while a token has expired and can't be refreshed",
    "a dump leaves out the refresh token of an account whose access token has expired",
    [(ST, '''            TokenState::Pending { .. } => TokenStateDump::Empty,
''', '''            TokenState::Pending { .. } => TokenStateDump::Empty,
            TokenState::Active {
                access_token_expiry,
                ..
            } if *access_token_expiry < Instant::now() => TokenStateDump::Empty,
''')], r'''
ts = TokenServer(lambda form, n: tok(n, expires_in=2) if n == 1 or n > 3 else None)
p = Pz(HEAD + "refresh_before_expiry = 0s; refresh_retry = 20s;" + account("x", ts))
p.auth("x")
wait(lambda: ts.refreshes(), "no refresh")
time.sleep(0.5)
d = p.cli("dump")[1]
p.cli("revoke", "x")
check(p.cli("restore", stdin=d)[0] == 0, "restore")
wait(lambda: len(ts.refreshes()) >= 2, "the expired token wasn't restored")
''')

bug("version-checked-last", "C12", "a dump of another version",
    "a dump of another version is refused after its tokens were restored",
    [(ST, '''        if d.version != DUMP_VERSION {
            return Err("Unknown dump version".into());
        }

        let mut restore''', '''        let mut restore'''), (ST, '''            self.details[ts_idx].1 = AccountId::new(self);
            self.details[ts_idx].2 = ts;
        }

        Ok(())''', '''            self.details[ts_idx].1 = AccountId::new(self);
            self.details[ts_idx].2 = ts;
        }

        if d.version != DUMP_VERSION {
            return Err("Unknown dump version".into());
        }
        Ok(())''')], CRYPT + r'''
p = Pz(HEAD + account("x", TokenServer()))
p.auth("x")
d = p.cli("dump")[1]
plain = crypt(d[:12], d[12:-16])
check(p.cli("revoke", "x")[0] == 0, "revoke")
r = p.cli("restore", stdin=seal(d[:12], struct.pack("<Q", 2) + plain[8:]))
check(r[0] == 1 and p.show("x") is None, "version 2 was restored: %r" % (r,))
r = p.cli("restore", stdin=seal(d[:12], plain))
check(r[0] == 0 and p.show("x") == "AT1", "version 1 was not restored: %r" % (r,))
''')

bug("uppercase-scheme-refused", "C13", "a URI with its scheme in upper case",
    "a valid http URI is refused because of the case of its scheme",
    [(CF, '''                    if x.scheme() == "http" || x.scheme() == "https" {''', '''                    if x.has_host() && (s.starts_with("http://") || s.starts_with("https://")) {''')], r'''
p = Pz(HEAD + 'account "x" { auth_uri = "HTTP://auth.example/a"; client_id = "cid"; token_uri = "HTTPS://127.0.0.1:1/"; }')
check(p.alive(), "not running")
''')

bug("listen-repeated", "C13", "https_listen given an address and then none",
    "a repeated option is accepted",
    [(CF, '''                            check_not_assigned(&lexer, "https_listen", span, https_listen)?;
                            https_listen = Some(None)''', '''                            if !matches!(https_listen, Some(Some(_))) {
                                check_not_assigned(&lexer, "https_listen", span, https_listen)?;
                            }
                            https_listen = Some(None)''')], r'''
p = Pz()
p.write('https_listen = "127.0.0.1:0"; https_listen = none;' + account("x", "http://127.0.0.1:1/"))
q = subprocess.Popen([BIN, "server", "-c", p.conf, "-d"], env=p.env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
try:
    check(q.wait(10) == 1, "exit status %r" % q.returncode)
except subprocess.TimeoutExpired:
    bad("a repeated option is accepted")
finally:
    q.kill()
''')

bug("lossy-config", "C13", "a configuration with bytes that aren't UTF-8",
    "a configuration that isn't valid UTF-8 is accepted with other characters in place of the bad ones",
    [(CF, '''        let input = match read_to_string(conf_path) {
            Ok(s) => s,''', '''        let input = match std::fs::read(conf_path) {
            Ok(s) => String::from_utf8_lossy(&s).into_owned(),'''), (CF, "collections::HashMap, error::Error, fs::read_to_string, path::Path", "collections::HashMap, error::Error, path::Path")], r'''
p = Pz(HEAD + account("x", "http://127.0.0.1:1/"))
open(p.conf, "wb").write((HEAD + account("x", "http://127.0.0.1:1/", 'client_secret = "caf@";')).encode().replace(b"@", b"\xe9"))
check(p.cli("reload")[0] == 1, "a configuration in Latin-1 is accepted")
''')

bug("name-fallback-case", "C25", "an account name that differs in case from a configured one",
    "a command for an account that doesn't exist acts on another one",
    [(ST, '''            .iter()
            .find(|x| x.0 == act_name)
            .map(|x| x.1)
    }

    /// Is `act_id` still''', '''            .iter()
            .find(|x| x.0 == act_name)
            .or_else(|| {
                self.guard
                    .details
                    .iter()
                    .find(|x| x.0.eq_ignore_ascii_case(act_name))
            })
            .map(|x| x.1)
    }

    /// Is `act_id` still''')], r'''
p = Pz(HEAD + account("Work", TokenServer()))
p.auth("Work")
check(p.cli("revoke", "work")[0] == 1, "revoke of an unknown account succeeds")
check(p.show("Work") == "AT1", "another account was revoked")
''')

bug("events-coalesced", "C16", "the same event for the same account twice while an earlier event's command runs",
    "two equal events in a row are reported as one",
    [(EV, '''        self.event_queue.lock().unwrap().push_back((act_name, kind));
''', '''        {
            let mut queue = self.event_queue.lock().unwrap();
            let dup = queue
                .back()
                .is_some_and(|(n, k)| n == &act_name && k.to_string() == kind.to_string());
            if !dup {
                queue.push_back((act_name, kind));
            }
        }
''')], r'''
p = Pz(HEAD + 'token_event_cmd = "sleep 1; echo $PIZAUTH_ACCOUNT $PIZAUTH_EVENT >> @DIR@/events";' + account("x", TokenServer()))
for _ in range(4):
    check(p.cli("revoke", "x")[0] == 0, "revoke")
wait(lambda: len(p.lines("events")) == 4, "4 revokes raise %d events" % len(p.lines("events")), 12)
''')

bug("show-counts-as-notification", "C17", "show during the interval between two reminders",
    "show puts off the next reminder of a pending authentication",
    [(MOD, '''                let ct_lk = pstate.ct_lock();
                let act_id = match ct_lk.validate_act_name(act_name) {
                    Some(x) => x,
                    None => {
                        drop(ct_lk);
                        stream.write_all(format!("error:No account '{act_name:}'").as_bytes())?;
                        return Ok(());
                    }
                };
                match ct_lk.tokenstate(act_id) {
                    TokenState::Empty => {''', '''                let mut ct_lk = pstate.ct_lock();
                let act_id = match ct_lk.validate_act_name(act_name) {
                    Some(x) => x,
                    None => {
                        drop(ct_lk);
                        stream.write_all(format!("error:No account '{act_name:}'").as_bytes())?;
                        return Ok(());
                    }
                };
                if *with_url == "withurl"
                    && matches!(
                        ct_lk.tokenstate(act_id),
                        TokenState::Pending {
                            last_notification: Some(_),
                            ..
                        }
                    )
                {
                    // The user is about to see the URL.
                    ct_lk.tokenstate_set_last_notification(act_id, Instant::now());
                }
                match ct_lk.tokenstate(act_id) {
                    TokenState::Empty => {''')], r'''
p = Pz(HEAD + NOTIFY + "auth_notify_interval = 6s;" + account("x", "http://127.0.0.1:1/"))
p.url("x")
wait(lambda: len(p.lines("notify")) == 1, "no notification")
t = time.monotonic()
time.sleep(4)
p.url("x")
wait(lambda: len(p.lines("notify")) == 2, "no reminder")
check(time.monotonic() - t < 8.5, "reminded after %.1f s" % (time.monotonic() - t))
''')

bug("naps-grow", "C18", "a token that is due in many hours, and a suspend that lasts past that",
    "work that fell due during a suspend may wait for up to an hour",
    [(RF, '''                |act_min| match Instant::now().checked_add(Duration::from_secs(MAX_WAIT_SECS)) {
                    Some(x) => cmp::min(act_min, x),
                    None => act_min,''', '''                // The longer there's to go, the less exact we need to be.
                |act_min| match Instant::now().checked_add(
                    act_min
                        .checked_duration_since(Instant::now())
                        .map(|x| x / 10)
                        .unwrap_or_default()
                        .clamp(
                            Duration::from_secs(MAX_WAIT_SECS),
                            Duration::from_secs(60 * 60),
                        ),
                ) {
                    Some(x) => cmp::min(act_min, x),
                    None => act_min,''')], SKEW + r'''
ts = TokenServer()
p = skewed(HEAD + account("x", ts))
p.auth("x")
time.sleep(1)
open(p.file("skew"), "w").write("3700")
wait(lambda: ts.refreshes(), "no refresh within 45 s after resuming", 45)
''', shim=CLOCK)

bug("request-limit", "C11", "a dump of more than 64 KiB",
    "a large dump can't be restored",
    [(MOD, '''    let mut buf = Vec::new();
    stream.read_to_end(&mut buf)?;
    let (cmd, rest)''', '''    let mut buf = Vec::new();
    // Don't let a misbehaving client make us use arbitrary amounts of memory.
    (&mut stream).take(64 * 1024).read_to_end(&mut buf)?;
    let (cmd, rest)''')], r'''
ts = TokenServer(lambda form, n: tok(n, access_token="A" * 20000 + str(n)))
p = Pz(HEAD + "".join(account("x%d" % n, ts) for n in range(4)))
for n in range(4):
    p.auth("x%d" % n)
d = p.cli("dump")[1]
for n in range(4):
    p.cli("revoke", "x%d" % n)
r = p.cli("restore", stdin=d)
check(r[0] == 0, "restore: %r" % (r,))
check(all(p.show("x%d" % n) == "A" * 20000 + str(n + 1) for n in range(4)), "not restored")
''')

bug("shutdown-with-rest", "C19", "a shutdown request with something behind it",
    "a malformed request ends the server",
    [(MOD, '''        "shutdown" if rest.is_empty() => {''', '''        "shutdown" => {''')], r'''
p = Pz(HEAD + account("x", "http://127.0.0.1:1/"))
sock = [os.path.join(d, f) for d, _, fs in os.walk(p.run) for f in fs if f.endswith(".sock")][0]
c = socket.socket(socket.AF_UNIX)
c.connect(sock)
c.sendall(b"shutdown:x")
c.shutdown(socket.SHUT_WR)
recv_all(c)
time.sleep(0.5)
check(p.alive(), "the server is gone")
''')

bug("lock-left-behind", "C21", "a server that was killed rather than shut down",
    "after a crash no server starts any more",
    [(MAIN, '''            let sock_path = sock_path(&cache_path);
            if sock_path.exists() {''', '''            // Two servers started at the same time mustn't get in each other's way.
            let lock_path = cache_path.join("pizauth.lock");
            if let Err(e) = fs::OpenOptions::new()
                .write(true)
                .create_new(true)
                .open(&lock_path)
            {
                if e.kind() == std::io::ErrorKind::AlreadyExists {
                    fatal("pizauth authenticator already running or starting");
                }
            }

            let sock_path = sock_path(&cache_path);
            if sock_path.exists() {'''), (MOD, '''    let listener = UnixListener::bind(sock_path)?;
    for stream''', '''    let listener = UnixListener::bind(sock_path)?;
    // From now on our socket tells others that we're running.
    std::fs::remove_file(cache_path.join("pizauth.lock")).ok();
    for stream'''), (MAIN, '''            let conf = Config::from_path(&conf_path).unwrap_or_else(|m| fatal(&m));
''', '''            let conf = Config::from_path(&conf_path).unwrap_or_else(|m| {
                fs::remove_file(&lock_path).ok();
                fatal(&m)
            });
''')], r'''
p = Pz(HEAD + account("x", "http://127.0.0.1:1/"))
p.kill()
# another process holds the port: this server doesn't get as far as opening its socket
s = socket.create_server(("127.0.0.1", 0))
p.write('https_listen = none; http_listen = "127.0.0.1:%d";' % s.getsockname()[1] + account("x", "http://127.0.0.1:1/"))
q = subprocess.run([BIN, "server", "-c", p.conf, "-d"], env=p.env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20)
check(q.returncode == 1, "a server with an address in use ends with %r" % q.returncode)
s.close()
p.start(HEAD + account("x", "http://127.0.0.1:1/"))
''')

bug("body-in-error", "C22", "a code exchange whose answer isn't quite JSON but holds a token",
    "the token is passed to error_notify_cmd in the environment",
    [(HS, '''            fail(pstate, act_id, &format!("Invalid JSON: {e}"))?;''', '''            fail(pstate, act_id, &format!("Invalid JSON: {e}: {body}"))?;''')], r'''
ts = TokenServer(lambda form, n: (200, '{"access_token": "S3CRETTOKEN", "token_type": "Bearer", "expires_in": 3600,}'))
p = Pz(HEAD + 'error_notify_cmd = "env >> @DIR@/errors; echo done >> @DIR@/errors";' + account("x", ts))
p.redirect(p.params("x"))
wait(lambda: "done" in p.lines("errors"), "no error is reported")
check(not any("S3CRET" in l for l in p.lines("errors")), "a token in the environment of error_notify_cmd")
''')

bug("rename-keeps-token", "C01", "a reload in which an account has got another name",
    "an account that was given another name keeps its token",
    [(ST, '''            } else {
                details.push((act_name.to_owned(), AccountId::new(self), TokenState::Empty));
            }
        }
''', '''            } else {
                // Has an account been renamed?
                let ts = self
                    .config
                    .accounts
                    .values()
                    .filter(|x| !config.accounts.contains_key(&x.name))
                    .find(|x| {
                        let mut x = (***x).clone();
                        x.name = act_name.to_owned();
                        config.accounts[act_name].secure_eq(&x)
                    })
                    .and_then(|x| self.details.iter().find(|y| y.0 == x.name))
                    .map(|x| x.2.clone())
                    .unwrap_or(TokenState::Empty);
                details.push((act_name.to_owned(), AccountId::new(self), ts));
            }
        }
''')], r'''
ts = TokenServer()
p = Pz(HEAD + account("x", ts))
p.auth("x")
check(p.reload(HEAD + account("y", ts))[0] == 0, "reload")
check(p.show("y") is None, "a new account starts with a token")
''')


ERRCHECK = '''    // Now that we know which account has been matched we can check if the full URI requested
    // matched the redirect URI we expected for that account.
    let act = ct_lk.account(act_id);
    let expected_uri = act.redirect_uri(pstate.http_port, pstate.https_port)?;
    if expected_uri.scheme() != uri.scheme()
        || expected_uri.host_str() != uri.host_str()
        || expected_uri.port() != uri.port()
    {
        // If the redirect URI doesn't match then all we can do is 404.
        drop(ct_lk);
        http_404(stream);
        return Ok(());
    }

'''
bug("error-before-uri-check", "C03", "an error redirect with a pending state to another host name, port or scheme than the redirect URI's",
    "a redirect that wasn't addressed to the redirect URI makes an authentication fail",
    [(HS, ERRCHECK, ""), (HS, '''    // Fish out the code query.
''', ERRCHECK + '''    // Fish out the code query.
''')], r'''
p = Pz(HEAD + ERRORS + account("x", TokenServer()))
q = p.params("x")
u = urlsplit(q["redirect_uri"])
p.get("/?state=%s&error=denied" % q["state"], "evil.example:%d" % u.port, u.port)
time.sleep(1)
check(p.params("x")["state"] == q["state"] and not p.lines("errors"), "the authentication failed")
p.redirect(q, error="denied")
wait(lambda: p.lines("errors"), "no error is reported")
''')

bug("expiry-margin", "C06", "show within the last seconds of a token's life",
    "a token that hasn't expired isn't shown",
    [(MOD, '''                        let response = if access_token_expiry > &Instant::now() {''', '''                        // A token that's about to expire is of no use to anyone.
                        let margin = Duration::from_secs(2);
                        let now = Instant::now().checked_add(margin);
                        let response = if now.is_none_or(|x| access_token_expiry > &x) {''')], r'''
ts = TokenServer(lambda form, n: tok(n, expires_in=6) if n == 1 else None)
p = Pz(HEAD + "refresh_before_expiry = 0s;" + account("x", ts))
p.redirect(p.params("x"))
wait(lambda: "Active" in p.cli("status")[1].decode(), "no token")
t = time.monotonic()
while time.monotonic() - t < 5:
    check(p.show("x") == "AT1" or time.monotonic() - t > 5, "not shown after %.1f s" % (time.monotonic() - t))
    time.sleep(0.2)
''')

UNTRUSTED = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "local.rs.txt")).read()
bug("untrusted-refresh", "C27", "a refresh at a token server whose certificate isn't trusted that has failed before",
    "the refresh token is sent to a token server whose certificate isn't trusted, at the second attempt",
    [(RF, '''        drop(ct_lk);
        let body = match ureq::AgentBuilder::new()
            .timeout(UREQ_TIMEOUT)
            .build()
''', '''        drop(ct_lk);
        let mut agent = ureq::AgentBuilder::new().timeout(UREQ_TIMEOUT);
        if is_retry {
            // Its certificate might just have expired.
            agent = agent.tls_config(Arc::new(local::config()));
        }
        let body = match agent
            .build()
'''), (RF, '''        let refresh_token = match new_ts {
            TokenState::Active {
                ref refresh_token,
''', '''        let is_retry = matches!(new_ts, TokenState::Active { consecutive_refresh_fails, .. } if consecutive_refresh_fails > 0);
        let refresh_token = match new_ts {
            TokenState::Active {
                ref refresh_token,
'''), (RF, "impl Refresher {\n    pub fn new()", UNTRUSTED + "impl Refresher {\n    pub fn new()")], CRYPT + r'''
import ssl
d = tempfile.mkdtemp(prefix="pzdemo")
atexit.register(shutil.rmtree, d, True)
subprocess.run(["openssl", "req", "-x509", "-newkey", "ec", "-pkeyopt", "ec_paramgen_curve:prime256v1", "-nodes", "-keyout", d + "/k", "-out", d + "/c", "-days", "100", "-subj", "/CN=127.0.0.1",
                "-addext", "subjectAltName=IP:127.0.0.1"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
plain_ts = TokenServer()
ts = TokenServer()
ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
ctx.load_cert_chain(d + "/c", d + "/k")
ts.srv.socket = ctx.wrap_socket(ts.srv.socket, server_side=True)
p = Pz(HEAD + account("x", plain_ts))
p.auth("x")
b = p.cli("dump")[1]
plain = crypt(b[:12], b[12:-16])
old = plain_ts.url.encode()
new = b"https://127.0.0.1:%d/" % ts.port
check(len(old) == len(new) and plain.count(old) == 1, "unexpected dump")
check(p.reload(HEAD + "refresh_retry = 2s;" + account("x", new.decode()))[0] == 0, "reload")
check(p.cli("restore", stdin=seal(b[:12], plain.replace(old, new)))[0] == 0, "restore")
check(p.show("x") == "AT1", "not restored")
check(p.cli("refresh", "x")[0] == 0, "refresh")
time.sleep(8)
check(not ts.reqs, "a refresh token was sent to a server with a self-signed certificate")
''')

bug("stale-info", "C24", "a socket left behind by a killed server",
    "info says that a server is running although none is",
    [(MAIN, '''            let svj = user_sender::server_info(&cache_path).ok();''', '''            let svj = match user_sender::server_info(&cache_path) {
                Ok(x) => Some(x),
                // The server might be busy.
                Err(_) if sock_path(&cache_path).exists() => {
                    Some(json!({"http_port": "unknown", "https_port": "unknown"}))
                }
                Err(_) => None,
            };''')], r'''
p = Pz(HEAD + account("x", "http://127.0.0.1:1/"))
check("server running" in p.cli("info", "--config=" + p.conf)[1].decode(), "no server running")
p.kill()
o = p.cli("info", "--config=" + p.conf)[1].decode()
check("server not running" in o, "info: %r" % o)
''')


bug("dedup-by-uri", "C15", "two accounts with the same token string",
    "revoking one account's token takes the other one's away if the token server gave both the same token",
    [(MOD, '''                Some(act_id) => {
                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);
                    pstate
                        .eventer
                        .token_event(act_name.to_owned(), TokenEvent::Revoked);''', '''                Some(act_id) => {
                    let token_of = |x: &TokenState| match x {
                        TokenState::Active { access_token, .. } => Some(access_token.clone()),
                        _ => None,
                    };
                    // A token that's revoked mustn't be used through another account either.
                    let revoked = token_of(ct_lk.tokenstate(act_id));
                    let same = ct_lk
                        .act_ids()
                        .filter(|x| revoked.is_some() && token_of(ct_lk.tokenstate(*x)) == revoked)
                        .collect::<Vec<_>>();
                    for x in same.into_iter().filter(|x| *x != act_id) {
                        ct_lk.tokenstate_replace(x, TokenState::Empty);
                    }
                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);
                    pstate
                        .eventer
                        .token_event(act_name.to_owned(), TokenEvent::Revoked);''')], r'''
ts = TokenServer(lambda form, n: tok(0))
p = Pz(HEAD + account("x", ts) + account("y", ts))
p.auth("x")
p.auth("y")
p.cli("revoke", "x")
check(p.show("y") == "AT0", "another account lost its token")
''')
