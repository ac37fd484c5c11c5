from mk import bug
ST, RF, HS, MOD, RT, NT, EV, US, CF, MAIN = ("src/server/state.rs", "src/server/refresher.rs", "src/server/http_server.rs", "src/server/mod.rs",
    "src/server/request_token.rs", "src/server/notifier.rs", "src/server/eventer.rs", "src/user_sender.rs", "src/config.rs", "src/main.rs")

bug("restore-keeps-id", "C02", "a code exchange that is waiting for the token server while a dump is restored for its account, and then fails",
    "a restored token is destroyed by the late failure of the code exchange it superseded",
    [(ST, "            self.details[ts_idx].1 = AccountId::new(self);\n            self.details[ts_idx].2 = ts;", "            if matches!(self.details[ts_idx].2, TokenState::Empty) {\n                self.details[ts_idx].1 = AccountId::new(self);\n            }\n            self.details[ts_idx].2 = ts;")], r'''
go = threading.Event()
ts = TokenServer(lambda form, n: tok(n) if n == 1 else (go.wait(60), (400, "no"))[1])
p = Pz(HEAD + account("x", ts))
p.auth("x")
d = p.cli("dump")[1]
p.cli("revoke", "x")
p.redirect(p.params("x"))
wait(lambda: len(ts.reqs) == 2, "no exchange")
check(p.cli("restore", stdin=d)[0] == 0, "restore refused")
check(p.show("x") == "AT1", "not restored")
go.set()
time.sleep(2)
check(p.show("x") == "AT1", "the restored token was lost to a superseded exchange")
''')

bug("changed-account-keeps-id", "C01", "a code exchange under way while a reload changes the account's client_id; its answer arrives afterwards",
    "the token obtained under the old version of the account becomes the token of the new one",
    [(ST, "                    details.push((act_name.to_owned(), AccountId::new(self), TokenState::Empty));\n                }\n            } else {",
      "                    let act_id = self\n                        .details\n                        .iter()\n                        .find(|x| x.0 == act_name.as_str())\n                        .map(|x| x.1)\n                        .unwrap();\n                    details.push((act_name.to_owned(), act_id, TokenState::Empty));\n                }\n            } else {"),
     # keep test_act_validation happy: only accounts that have never been pending keep their id
     (ST, "                    let act_id = self\n                        .details\n                        .iter()\n                        .find(|x| x.0 == act_name.as_str())\n                        .map(|x| x.1)\n                        .unwrap();\n",
      "                    let old = self\n                        .details\n                        .iter()\n                        .find(|x| x.0 == act_name.as_str())\n                        .map(|x| (x.1, matches!(&x.2, TokenState::Pending { last_notification: Some(_), .. })));\n                    let act_id = match old {\n                        Some((act_id, true)) => act_id,\n                        _ => AccountId::new(self),\n                    };\n")], r'''
go = threading.Event()
ts = TokenServer(lambda form, n: (go.wait(60), tok(n))[1])
p = Pz(HEAD + NOTIFY + account("x", ts))
q = p.params("x")
wait(lambda: p.lines("notify"), "no notification")
p.redirect(q)
wait(lambda: len(ts.reqs) == 1, "no exchange")
check(p.reload(HEAD + NOTIFY + account("x", ts).replace("cid", "other"))[0] == 0, "reload refused")
go.set()
time.sleep(2)
check(p.show("x") is None, "a token of the old version of the account is shown")
''')

bug("ip-hosts-alike", "C03", "a redirect whose Host header names another IP address than the redirect_uri",
    "a redirect addressed to another host (IP addresses) is acted on",
    [(HS, "        || expected_uri.host_str() != uri.host_str()", "        || expected_uri.domain() != uri.domain()")], r'''
ts = TokenServer()
p = Pz(HEAD + account("x", ts, 'redirect_uri = "http://127.0.0.1/";'))
q = p.params("x")
port = urlsplit(q["redirect_uri"]).port
r = p.get("/?state=%s&code=C" % q["state"], "10.1.2.3:%d" % port, port)
time.sleep(1.5)
check(not ts.reqs, "a redirect to 10.1.2.3 caused a token request: %r" % r)
p.redirect(q)
wait(lambda: ts.reqs, "a correct redirect is ignored")
''')

bug("verifier-reused", "C04", "a second request (refresh) for an account whose authentication is already pending",
    "a fresh authorisation request reuses the code challenge (and verifier) of the one it replaces",
    [(RT, "    let mut code_verifier = [0u8; CODE_VERIFIER_LEN];\n    rng().fill_bytes(&mut code_verifier);\n    let code_verifier = URL_SAFE_NO_PAD.encode(code_verifier);",
      "    let code_verifier = match ct_lk.tokenstate(act_id) {\n        TokenState::Pending { code_verifier, .. } => code_verifier.clone(),\n        _ => {\n            let mut code_verifier = [0u8; CODE_VERIFIER_LEN];\n            rng().fill_bytes(&mut code_verifier);\n            URL_SAFE_NO_PAD.encode(code_verifier)\n        }\n    };")], r'''
p = Pz(HEAD + account("x", TokenServer()))
a = p.params("x")
b = p.params("x", "refresh")
check(a["state"] != b["state"], "state reused")
check(a["code_challenge"] != b["code_challenge"], "code challenge reused")
''')

bug("status-503-retried", "C05", "a token server that answers the code exchange with 503",
    "a refused authorisation code is sent again instead of being reported as a failure",
    [(HS, "            Err(ureq::Error::Status(code, response)) => {", "            Err(ureq::Error::Status(code, response)) if code != 503 => {")], r'''
ts = TokenServer(lambda form, n: (503, "busy") if n == 1 else tok(n))
p = Pz(HEAD + ERRORS + account("x", ts))
p.redirect(p.params("x"))
wait(lambda: ts.reqs, "no exchange")
time.sleep(9)
check(len(ts.reqs) == 1, "the code was sent %d times" % len(ts.reqs))
check(len(p.lines("errors")) == 1, "failure not reported: %r" % p.lines("errors"))
''')

bug("reload-doesnt-wake-refresher", "C07", "a reload that makes a token due earlier than the refresher's next wake-up",
    "a shortened refresh_at_least takes effect on current tokens only when the refresher happens to wake up",
    [(ST, "            lk.update_conf(new_conf);\n        }\n        self.notifier.notify_changes();\n        self.refresher.notify_changes();", "            lk.update_conf(new_conf);\n        }\n        self.notifier.notify_changes();")], r'''
ts = TokenServer()
p = Pz(HEAD + account("x", ts))
p.auth("x")
time.sleep(3)
check(p.reload(HEAD + account("x", ts, "refresh_at_least = 2s;"))[0] == 0, "reload refused")
wait(lambda: ts.refreshes(), "not refreshed after the reload", 8)
''')

bug("kept-token-stays-ongoing", "C10", "six transitory failures in a row with a transient_error_if_cmd that exits with 0",
    "after transient_error_if_cmd decided to keep the token, it is never refreshed again",
    [(RF, "                                                        if ct_lk.is_act_id_valid(act_id) {\n                                                            ct_lk.tokenstate_set_ongoing_refresh(\n                                                                act_id, false,\n                                                            );\n                                                        }\n                                                        drop(ct_lk);\n                                                    }\n                                                    Err(e) => {",
      "                                                        drop(ct_lk);\n                                                    }\n                                                    Err(e) => {")], r'''
ts = TokenServer(lambda form, n: tok(n) if n == 1 else None)
p = Pz(HEAD + 'transient_error_if_cmd = "echo x >> @DIR@/te";' + account("x", ts, "refresh_retry = 1s; refresh_at_least = 1s;"))
p.auth("x")
wait(lambda: p.lines("te"), "transient_error_if_cmd not run", 40)
n = len(ts.reqs)
wait(lambda: len(ts.reqs) > n, "no further attempt", 15)
''')

bug("fails-not-reset", "C10", "transitory failures before and after a successful refresh that add up to six",
    "successful refreshes don't reset the count of consecutive failures, so transient_error_if_cmd runs early",
    [(RF, "                            ongoing_refresh: false,\n                            consecutive_refresh_fails: 0,", "                            ongoing_refresh: false,\n                            consecutive_refresh_fails,"),
     (RF, "                    let expiry = match expiry_instant(&ct_lk, act_id, now, expires_in) {", "                    let consecutive_refresh_fails = match ct_lk.tokenstate(act_id) {\n                        TokenState::Active {\n                            consecutive_refresh_fails,\n                            ..\n                        } => *consecutive_refresh_fails,\n                        _ => 0,\n                    };\n                    let expiry = match expiry_instant(&ct_lk, act_id, now, expires_in) {")], r'''
ts = TokenServer(lambda form, n: tok(n, expires_in=3600) if n in (1, 5) else None)
p = Pz(HEAD + 'transient_error_if_cmd = "echo x >> @DIR@/te";' + account("x", ts, "refresh_retry = 1s; refresh_at_least = 1s;"))
p.auth("x")
wait(lambda: len(ts.refreshes()) >= 8, "too few refreshes", 40)
time.sleep(0.5)
check(len(ts.refreshes()) < 10, "too slow to tell")
check(not p.lines("te"), "transient_error_if_cmd run after %d failures since the last success" % (len(ts.refreshes()) - 4))
''')

bug("event-cmd-read-early", "C16", "several queued events and a reload that changes token_event_cmd while the first one runs",
    "queued events are run with the command configured before the reload",
    [(EV, "            loop {\n                let (act_name, event) =", "            let token_event_cmd = pstate.ct_lock().config().token_event_cmd.clone();\n            loop {\n                let (act_name, event) ="),
     (EV, "                let token_event_cmd = if let Some(token_event_cmd) =\n                    pstate.ct_lock().config().token_event_cmd.clone()\n                {", "                let token_event_cmd = if let Some(token_event_cmd) = token_event_cmd.clone() {")], r'''
ts = TokenServer()
c = HEAD + 'token_event_cmd = "echo %s $PIZAUTH_ACCOUNT $PIZAUTH_EVENT >> @DIR@/ev; while ! test -e @DIR@/go; do sleep 0.1; done";' + account("x", ts) + account("y", ts)
p = Pz(c % "one")
p.cli("revoke", "x")
wait(lambda: p.lines("ev"), "no event")
p.cli("revoke", "y")
check(p.reload(c % "two")[0] == 0, "reload refused")
open(p.file("go"), "w").close()
wait(lambda: len(p.lines("ev")) == 2, "second event lost")
check(p.lines("ev") == ["one x token_revoked", "two y token_revoked"], "events: %r" % p.lines("ev"))
''')

bug("replaced-request-not-announced", "C17", "a new authorisation request (refresh) replacing one that is still pending",
    "the new request inherits the time of the last notification, so its URL is not notified at once",
    [(RT, "    let scopes_join = act.scopes.join(\" \");", "    let last_notification = match ct_lk.tokenstate(act_id) {\n        TokenState::Pending {\n            last_notification, ..\n        } => *last_notification,\n        _ => None,\n    };\n    let scopes_join = act.scopes.join(\" \");"),
     (RT, "            last_notification: None,", "            last_notification,")], r'''
p = Pz(HEAD + NOTIFY + account("x", TokenServer()))
a = p.url("x")
wait(lambda: len(p.lines("notify")) == 1, "first request not notified")
b = p.url("x", "refresh")
wait(lambda: len(p.lines("notify")) == 2, "second request not notified", 6)
check(p.lines("notify")[1].endswith(b), "wrong URL")
''')

bug("restore-secret-removed", "C11", "a dump made without client_secret, restored when the account has got one",
    "a token is restored although the account's client_secret differs",
    [(CF, "            && self.client_secret == act_dump.client_secret\n            && self.redirect_uri == act_dump.redirect_uri\n            && self.scopes == act_dump.scopes", "            && (act_dump.client_secret.is_none() || self.client_secret == act_dump.client_secret)\n            && self.redirect_uri == act_dump.redirect_uri\n            && self.scopes == act_dump.scopes")], r'''
ts = TokenServer()
p = Pz(HEAD + account("x", ts))
p.auth("x")
d = p.cli("dump")[1]
p.reload(HEAD + account("x", ts, 'client_secret = "s";'))
check(p.cli("restore", stdin=d)[0] == 0, "restore refused")
check(p.show("x") is None, "token restored for a different account")
''')

bug("host-header-case", "C20", "a browser or proxy that writes the Host header in upper case",
    "a valid redirect with an upper-case header name is refused",
    [(HS, "            if f.as_str()[..i].eq_ignore_ascii_case(\"host\") {", "            if matches!(&f.as_str()[..i], \"Host\" | \"host\") {")], r'''
ts = TokenServer()
p = Pz(HEAD + account("x", ts))
q = p.params("x")
port = urlsplit(q["redirect_uri"]).port
s = socket.create_connection(("127.0.0.1", port))
s.sendall(("GET /?state=%s&code=C HTTP/1.1\r\nHOST: localhost:%d\r\n\r\n" % (q["state"], port)).encode())
r = recv_all(s)
check(r.startswith(b"HTTP/1.1 200"), "redirect refused: %r" % r)
wait(lambda: ts.reqs, "no token request")
''')


bug("dir-mode-kept", "C22", "a runtime directory that already exists with a mode that lets others in",
    "a pre-existing pizauth directory keeps its permissive mode, so others can reach the socket",
    [(MAIN, "            match fs::create_dir(p) {\n                // Another pizauth process might have created the directory in the meantime.\n                Err(e) if !p.is_dir() => fatal(&format!(\"Can't create cache dir: {e}\")),\n                _ => (),\n            }\n        }\n        fs::set_permissions(p, PermissionsExt::from_mode(0o700)).unwrap_or_else(|_| {\n            fatal(&format!(\n                \"Can't set permissions for {} to 0700 (octal)\",\n                p.to_str()\n                    .unwrap_or(\"<path cannot be represented as UTF-8>\")\n            ))\n        });",
      "            match fs::create_dir(p) {\n                // Another pizauth process might have created the directory in the meantime.\n                Err(e) if !p.is_dir() => fatal(&format!(\"Can't create cache dir: {e}\")),\n                _ => (),\n            }\n            fs::set_permissions(p, PermissionsExt::from_mode(0o700)).unwrap_or_else(|_| {\n                fatal(&format!(\n                    \"Can't set permissions for {} to 0700 (octal)\",\n                    p.to_str()\n                        .unwrap_or(\"<path cannot be represented as UTF-8>\")\n                ))\n            });\n        }")], r'''
p = Pz()
os.mkdir(p.run + "/pizauth")
os.chmod(p.run, 0o755)
os.chmod(p.run + "/pizauth", 0o777)
p.start(HEAD + account("x", TokenServer()))
check(os.stat(p.run + "/pizauth").st_mode & 0o77 == 0, "others can enter the directory of the socket")
''')

bug("token-with-colon", "C06", "an access token that contains a colon",
    "show fails for access tokens with a colon",
    [(US, "    stream\n        .write_all(format!(\"showtoken:{with_url:} {account:}\").as_bytes())\n        .map_err(|_| \"Socket not writeable\")?;\n    stream.shutdown(Shutdown::Write)?;\n\n    let mut rtn = String::new();\n    stream.read_to_string(&mut rtn)?;\n    match rtn.splitn(2, ':').collect::<Vec<_>>()[..] {",
      "    stream\n        .write_all(format!(\"showtoken:{with_url:} {account:}\").as_bytes())\n        .map_err(|_| \"Socket not writeable\")?;\n    stream.shutdown(Shutdown::Write)?;\n\n    let mut rtn = String::new();\n    stream.read_to_string(&mut rtn)?;\n    match rtn.splitn(3, ':').collect::<Vec<_>>()[..] {\n        [\"access_token\", x, _] => {\n            println!(\"{x:}\");\n            Ok(())\n        }\n        [\"pending\", scheme, url] => Err(format!(\n            \"Access token unavailable until authorised with URL {scheme:}:{url:}\"\n        )\n        .into()),\n        [\"error\", cause, rest] => Err(format!(\"{cause:}:{rest:}\").into()),")], r'''
ts = TokenServer(lambda form, n: tok(n, access_token="ya29:abc:def"))
p = Pz(HEAD + account("x", ts))
p.auth("x")
check(p.show("x") == "ya29:abc:def", "show prints %r" % p.show("x"))
''')

bug("non-utf8-request", "C19", "a request on the command socket with an account name that isn't UTF-8",
    "a client that sends a badly encoded request kills the server",
    [(MOD, "            let act_name = std::str::from_utf8(rest)?;", "            let act_name = std::str::from_utf8(rest).expect(\"Account names are UTF-8\");")], r'''
p = Pz(HEAD + account("x", TokenServer()))
p.auth("x")
s = socket.socket(socket.AF_UNIX)
s.connect(p.run + "/pizauth/pizauth.sock")
s.sendall(b"revoke:\xff\xfe")
s.shutdown(socket.SHUT_WR)
recv_all(s)
check(p.show("x") == "AT1", "the server is gone")
''')

bug("names-trimmed", "C15", "two accounts whose names differ in surrounding blanks only",
    "commands for one account act on another one with a similar name",
    [(ST, "            .find(|x| x.0 == act_name)\n            .map(|x| x.1)\n    }\n\n    /// Is `act_id` still a valid", "            .find(|x| x.0 == act_name)\n            .or_else(|| {\n                // Be lenient about stray whitespace.\n                self.guard\n                    .details\n                    .iter()\n                    .find(|x| x.0.trim() == act_name.trim())\n            })\n            .map(|x| x.1)\n    }\n\n    /// Is `act_id` still a valid")], r'''
ts = TokenServer()
p = Pz(HEAD + account("x", ts))
p.auth("x")
check(p.cli("revoke", "--", " x ")[0] == 1, "revoke of an unknown account succeeded")
check(p.show("x") == "AT1", "revoke of ' x ' revoked 'x'")
''')

bug("reload-keeps-old-options", "C14", "a reload that changes only the timing options of an account that has a token",
    "an account that keeps its token also keeps its old timing options",
    [(ST, "    fn update_conf(&mut self, config: Config) {", "    fn update_conf(&mut self, mut config: Config) {"),
     (ST, "        self.config = config;\n        self.details = details;", "        for (act_name, _, ts) in &details {\n            if let (TokenState::Active { .. }, Some(act)) =\n                (ts, self.config.accounts.get(act_name))\n            {\n                config.accounts.insert(act_name.clone(), act.clone());\n            }\n        }\n        self.config = config;\n        self.details = details;")], r'''
ts = TokenServer()
p = Pz(HEAD + account("x", ts))
p.auth("x")
check(p.reload(HEAD + account("x", ts, "refresh_at_least = 2s;"))[0] == 0, "reload refused")
wait(lambda: ts.refreshes(), "the new refresh_at_least has no effect", 10)
''')

bug("nonce-once", "C12", "two dumps made by the same server",
    "all dumps of one server run use the same nonce, so dumps of the same state are identical",
    [(ST, "        let mut nonce = [0u8; NONCE_LEN];\n        rng().fill(&mut nonce[..]);\n        let nonce = Nonce::from_slice(&nonce);", "        static NONCE: std::sync::OnceLock<[u8; NONCE_LEN]> = std::sync::OnceLock::new();\n        let nonce = NONCE.get_or_init(|| {\n            let mut nonce = [0u8; NONCE_LEN];\n            rng().fill(&mut nonce[..]);\n            nonce\n        });\n        let nonce = Nonce::from_slice(nonce);")], r'''
p = Pz(HEAD + account("x", TokenServer()))
a, b = p.cli("dump")[1], p.cli("dump")[1]
check(a and a != b, "two dumps are identical")
''')

bug("days-saturate", "C13", "a time in days that doesn't fit into 64 bits of seconds",
    "an unrepresentable time is accepted and silently replaced by another one",
    [(CF, "            'd' => num.checked_mul(86400).ok_or(\"Number too big\")?,", "            'd' => num.saturating_mul(86400),")], r'''
p = Pz(HEAD + account("x", TokenServer()))
check(p.reload(HEAD + "refresh_at_least = 213503982334602d;" + account("x", TokenServer()))[0] == 1, "an unrepresentable time is accepted")
''')

bug("scheme-not-checked", "C23", "a request on the HTTPS listener whose Host header names the HTTP listener's port",
    "the HTTPS listener acts on a redirect that is meant for the HTTP listener",
    [(HS, "    if expected_uri.scheme() != uri.scheme()\n        || expected_uri.host_str() != uri.host_str()", "    if expected_uri.host_str() != uri.host_str()")], r'''
import ssl
ts = TokenServer()
p = Pz(account("x", ts))
q = p.params("x")
port = urlsplit(q["redirect_uri"]).port
hp = int(json.loads(p.cli("info", "-j", "-c", p.conf)[1])["server_info"]["https_port"])
c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
c.check_hostname = False
c.verify_mode = ssl.CERT_NONE
s = c.wrap_socket(socket.create_connection(("127.0.0.1", hp)))
s.sendall(("GET /?state=%s&code=C HTTP/1.1\r\nHost: localhost:%d\r\n\r\n" % (q["state"], port)).encode())
recv_all(s)
time.sleep(1.5)
check(not ts.reqs, "the HTTPS listener acted on an HTTP redirect")
''')

bug("server-error-transitory", "C08", "a token server that answers a refresh with a 5xx status",
    "a refresh that was refused with a 5xx status keeps the token and is retried",
    [(RF, "            Err(ureq::Error::Status(code, response)) => {\n                let reason = match response.into_string() {", "            Err(ref e @ ureq::Error::Status(502 | 504, _)) => {\n                return RefreshKind::TransitoryError(act_id, e.to_string());\n            }\n            Err(ureq::Error::Status(code, response)) => {\n                let reason = match response.into_string() {")], r'''
ts = TokenServer(lambda form, n: tok(n) if n == 1 else (502, "bad gateway"))
p = Pz(HEAD + EVENTS + account("x", ts))
p.auth("x")
p.cli("refresh", "x")
wait(lambda: "x token_invalidated" in p.lines("events"), "no token_invalidated event", 6)
check(p.show("x") is None, "token kept")
''')

bug("refresh-waits", "C06", "a token server that doesn't answer for a while after a refresh command",
    "the refresh command (and everything after it) waits for the token server",
    [(RF, "        let refresher = Arc::clone(self);\n        thread::spawn(move || {\n            let mut ct_lk = pstate.ct_lock();", "        let refresher = Arc::clone(self);\n        let (tx, rx) = std::sync::mpsc::channel::<()>();\n        thread::spawn(move || {\n            let _tx = tx;\n            let mut ct_lk = pstate.ct_lock();"),
     (RF, "                }\n            }\n        });\n    }\n\n    fn run_not_transient_error_if(", "                }\n            }\n        });\n        // Most refreshes finish quickly: give them a chance to.\n        rx.recv_timeout(Duration::from_secs(8)).ok();\n    }\n\n    fn run_not_transient_error_if(")], r'''
go = threading.Event()
ts = TokenServer(lambda form, n: tok(n) if n == 1 else (go.wait(60), tok(n))[1])
p = Pz(HEAD + account("x", ts))
p.auth("x")
t = time.monotonic()
check(p.cli("refresh", "x")[0] == 0, "refresh failed")
d = time.monotonic() - t
go.set()
check(d < 5, "refresh took %.1f s" % d)
''')
