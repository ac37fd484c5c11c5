from mk import bug
ST, RF, HS, MOD, RT, NT, EV, US, CF, MAIN = ("src/server/state.rs", "src/server/refresher.rs", "src/server/http_server.rs", "src/server/mod.rs",
    "src/server/request_token.rs", "src/server/notifier.rs", "src/server/eventer.rs", "src/user_sender.rs", "src/config.rs", "src/main.rs")

# Copies of strings of one particular length take the server a second while there is a file "slow".
SLOW = r'''
#include <stddef.h>
#include <unistd.h>
extern void *__libc_malloc(size_t);
void *malloc(size_t n) {
  if (n == 4999 && access("slow", F_OK) == 0) usleep(1000000);
  return __libc_malloc(n);
}
'''
PRE = r'''
LONG = "L" * 4999
ts = TokenServer(lambda form, n: tok(n, access_token=("%d" % n) + LONG[1:], refresh_token=None))
def slow(p, on=True):
    if on:
        open(p.file("slow"), "w").close()
    else:
        os.unlink(p.file("slow"))
def server(conf):
    p = Pz()
    p.env["LD_PRELOAD"] = os.environ["SHIM"]
    p.start(conf)
    return p
def start(*a):
    return subprocess.Popen([BIN, *a], env=p.env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
'''

bug("exchange-relock", "C02", "a revoke between the check that an answer is still wanted and its use",
    "the answer to a code exchange is used although the account is revoked meanwhile",
    [(HS, '''            let act_name = ct_lk.account(act_id).name.to_owned();
            ct_lk.tokenstate_replace(
                act_id,
                TokenState::Active {
                    access_token: access_token.to_owned(),
''', '''            let act_name = ct_lk.account(act_id).name.to_owned();
            // Tokens can be big: don't hold up others while copying this one.
            drop(ct_lk);
            let access_token = access_token.to_owned();
            let mut ct_lk = pstate.ct_lock();
            let act_id = match ct_lk.validate_act_name(&act_name) {
                Some(x) => x,
                None => return Ok(()),
            };
            ct_lk.tokenstate_replace(
                act_id,
                TokenState::Active {
                    access_token,
''')], PRE + r'''
for d in (0.5, 1.5, 2.5, 3.5, 4.5, 5.5):
    p = server(HEAD + EVENTS + account("x", ts))
    q = p.params("x")
    slow(p)
    n = len(ts.reqs)
    p.redirect(q)
    wait(lambda: len(ts.reqs) == n + 1, "no exchange")
    time.sleep(d)
    if p.lines("events"):
        break
    check(p.cli("revoke", "x")[0] == 0, "revoke fails")
    time.sleep(4)
    e = p.lines("events")
    check("x token_new" not in e or e.index("x token_new") < e.index("x token_revoked"), "a revoked account obtained a token: %r" % e[:10])
    p.close()
''', SLOW)

bug("refresh-relock", "C09", "two requests for a refresh at almost the same time",
    "two refreshes of the same token run at once",
    [(RF, '''            let mut ct_lk = pstate.ct_lock();
            if ct_lk.is_act_id_valid(act_id) {
                let mut new_ts = ct_lk.tokenstate(act_id).clone();
                if let TokenState::Active {
                    ref mut ongoing_refresh,
                    ..
                } = new_ts
                {
                    if !*ongoing_refresh {
                        *ongoing_refresh = true;
''', '''            let mut ct_lk = pstate.ct_lock();
            if ct_lk.is_act_id_valid(act_id) {
                let mut new_ts = ct_lk.tokenstate(act_id).clone();
                if let TokenState::Active {
                    ref mut ongoing_refresh,
                    ..
                } = new_ts
                {
                    if !*ongoing_refresh {
                        let act_name = ct_lk.account(act_id).name.clone();
                        drop(ct_lk);
                        let msg = ["Refreshing ", act_name.as_str()].concat();
                        info!("{msg}");
                        ct_lk = pstate.ct_lock();
                        let act_id = match ct_lk.validate_act_name(&act_name) {
                            Some(x) if matches!(ct_lk.tokenstate(x), TokenState::Active { .. }) => x,
                            _ => return,
                        };
                        *ongoing_refresh = true;
''')], PRE.replace("refresh_token=None", "refresh_token='R'") + r'''
NAME = "n" * (4999 - len("Refreshing "))
hold = threading.Event()
def answer(form, n):
    if form["grant_type"] == "refresh_token":
        hold.wait(20)
    return tok(n)
ts = TokenServer(answer)
p = server(HEAD + account(NAME, ts))
p.auth(NAME)
slow(p)
ps = [start("refresh", NAME) for _ in range(3)]
for x in ps:
    x.wait()
time.sleep(5)
check(len(ts.refreshes()) == 1, "%d refreshes at once" % len(ts.refreshes()))
''', SLOW)

bug("reload-two-phases", "C01", "an exchange that completes while a reload is being carried out",
    "a token that arrives during a reload is lost",
    [(ST, '''        {
            let mut lk = self.locked_state.lock().unwrap();
            lk.update_conf(new_conf);
        }
''', '''        let kept = self.locked_state.lock().unwrap().kept(&new_conf);
        let names = new_conf.accounts.keys().cloned().collect::<Vec<_>>();
        {
            let mut lk = self.locked_state.lock().unwrap();
            lk.update_conf(new_conf, names, kept);
        }
'''), (ST, '''    fn update_conf(&mut self, config: Config) {
        let mut details = Vec::with_capacity(config.accounts.len());

        for act_name in config.accounts.keys() {
            if let Some(old_act) = self.config.accounts.get(act_name) {
                let new_act = &config.accounts[act_name];
                if new_act.secure_eq(old_act) {
                    // We know that `self.details` must contain `act_name` so the unwrap is safe.
                    details.push(
                        self.details
                            .iter()
                            .find(|x| x.0 == act_name.as_str())
                            .unwrap()
                            .clone(),
                    );
                } else {
''', '''    /// The details of those accounts which don't change in a security relevant way with `config`.
    fn kept(&self, config: &Config) -> HashMap<String, (AccountId, TokenState)> {
        let mut kept = HashMap::new();
        for (act_name, act_id, ts) in &self.details {
            if let Some(new_act) = config.accounts.get(act_name) {
                if new_act.secure_eq(&self.config.accounts[act_name.as_str()]) {
                    kept.insert(act_name.to_owned(), (*act_id, ts.clone()));
                }
            }
        }
        kept
    }

    fn update_conf(
        &mut self,
        config: Config,
        names: Vec<String>,
        mut kept: HashMap<String, (AccountId, TokenState)>,
    ) {
        let mut details = Vec::with_capacity(config.accounts.len());

        for act_name in &names {
            if self.config.accounts.contains_key(act_name) {
                if let Some((act_id, ts)) = kept.remove(act_name) {
                    details.push((act_name.to_owned(), act_id, ts));
                } else {
''')], PRE + r'''
NAME = "n" * 4999
go = threading.Event()
def answer(form, n):
    go.wait(20)
    return tok(n)
ts = TokenServer(answer)
conf = HEAD + EVENTS + account("x", ts) + account(NAME, ts)
for delay in (0.5, 1.5, 2.5, 3.5, 4.5, 5.5, 6.5, 7.5, 8.5, 9.5):
    go.clear()
    p = server(conf)
    p.redirect(p.params("x"))
    slow(p)
    r = start("reload")
    time.sleep(delay)
    early = r.poll() is not None
    go.set()
    wait(lambda: p.lines("events"), "no token", 60)
    r.wait()
    slow(p, False)
    check(p.show("x"), "the token that arrived %.1f s into the reload is lost" % delay)
    p.close()
    if early:
        break
''', SLOW)

bug("restore-two-phases", "C11", "an exchange that completes while a restore is being carried out",
    "restore overwrites a token that was obtained in the meantime",
    [(ST, '''        self.locked_state.lock().unwrap().restore(d)?;
        self.notifier''', '''        // Turn what was dumped into tokens before taking the lock.
        let d = bincode::deserialize::<Dump>(&d)?;
        let wanted = self.locked_state.lock().unwrap().restorable(&d)?;
        let restore = wanted
            .into_iter()
            .map(|act_name| {
                let ts = TokenState::restore(&d.accounts[&act_name].1);
                (act_name, ts)
            })
            .collect::<Vec<_>>();
        self.locked_state.lock().unwrap().restore(restore);
        self.notifier'''), (ST, '''    fn restore(&mut self, dump: Vec<u8>) -> Result<(), Box<dyn Error>> {
        let d = bincode::deserialize::<Dump>(&dump)?;
        if d.version''', '''    fn restorable(&self, d: &Dump) -> Result<Vec<String>, Box<dyn Error>> {
        if d.version'''), (ST, '''        let mut restore = HashMap::new();
        for (act_name, _, old_ts)''', '''        let mut restore = Vec::new();
        for (act_name, _, old_ts)'''), (ST, '''                    let new_ts = TokenState::restore(ts_dump);
                    match (old_ts, &new_ts) {
                        (
                            &TokenState::Empty | &TokenState::Pending { .. },
                            &TokenState::Empty | &TokenState::Pending { .. },
                        ) => (),
                        (
                            &TokenState::Empty | &TokenState::Pending { .. },
                            &TokenState::Active { .. },
                        ) => {
                            restore.insert(act_name.to_owned(), new_ts);
                        }
                        (&TokenState::Active { .. }, _) => (),
                    }
''', '''                    match (old_ts, ts_dump) {
                        (
                            &TokenState::Empty | &TokenState::Pending { .. },
                            &TokenStateDump::Empty,
                        ) => (),
                        (
                            &TokenState::Empty | &TokenState::Pending { .. },
                            &TokenStateDump::Active { .. },
                        ) => {
                            restore.push(act_name.to_owned());
                        }
                        (&TokenState::Active { .. }, _) => (),
                    }
'''), (ST, '''        for (act_name, ts) in restore.drain() {
            let ts_idx = self
                .details
                .iter()
                .position(|(n, _, _)| n == &act_name)
                .unwrap();
            self.details[ts_idx].1 = AccountId::new(self);
            self.details[ts_idx].2 = ts;
        }

        Ok(())
''', '''        Ok(restore)
    }

    fn restore(&mut self, restore: Vec<(String, TokenState)>) {
        for (act_name, ts) in restore.into_iter() {
            if let Some(ts_idx) = self.details.iter().position(|(n, _, _)| n == &act_name) {
                self.details[ts_idx].1 = AccountId::new(self);
                self.details[ts_idx].2 = ts;
            }
        }
''')], PRE + r'''
go = threading.Event()
def answer(form, n):
    if n == 1:
        return tok(n, access_token=LONG)
    go.wait(30)
    return tok(n)
for delay in (0.5, 1.5, 2.5, 3.5, 4.5, 5.5, 6.5, 7.5, 8.5, 9.5):
    go.clear()
    ts = TokenServer(answer)
    p = server(HEAD + EVENTS + account("x", ts))
    p.auth("x")
    rc, d, _ = p.cli("dump")
    check(rc == 0, "dump fails")
    p.cli("revoke", "x")
    p.redirect(p.params("x"))
    wait(lambda: len(ts.reqs) == 2, "no exchange")
    with open(p.file("d"), "wb") as f:
        f.write(d)
    slow(p)
    r = subprocess.Popen([BIN, "restore"], env=p.env, stdin=open(p.file("d"), "rb"), stderr=subprocess.DEVNULL)
    time.sleep(delay)
    early = r.poll() is not None
    go.set()
    check(r.wait() == 0, "restore fails")
    time.sleep(1)
    slow(p, False)
    time.sleep(1.5)
    if p.lines("events").count("x token_new") == 2:
        check(p.show("x") == "AT2", "a new token was overwritten by a restore %.1f s before it came" % delay)
    else:
        check(p.show("x") == LONG, "the token restored was replaced")
    p.close()
    if early:
        break
''', SLOW)

bug("redirect-relock", "C20", "a redirect for a request which is revoked while the redirect is being looked at",
    "the server dies of a redirect whose request is superseded at that moment",
    [(HS, '''    let code = match uri.query_pairs().find(|(k, _)| k == "code") {
        Some((_, code)) => code.to_string(),
        None => {
            // A request without a 'code' is broken. This seems very unlikely to happen and if it
            // does, would retrying our request from scratch improve anything?
            drop(ct_lk);
            http_400(stream);
            return Ok(());
        }
    };
''', '''    drop(ct_lk);
    let code = match uri.query_pairs().find(|(k, _)| k == "code") {
        Some((_, code)) => code.to_string(),
        None => {
            // A request without a 'code' is broken. This seems very unlikely to happen and if it
            // does, would retrying our request from scratch improve anything?
            http_400(stream);
            return Ok(());
        }
    };
    let ct_lk = pstate.ct_lock();
    let act = ct_lk.account(act_id);
''')], PRE + r'''
p = server(HEAD + account("x", ts) + account("y", ts))
for i in range(3):
    q = p.params("x")
    slow(p)
    t = threading.Thread(target=p.redirect, args=(q, "C" * 4999), daemon=True)
    t.start()
    for _ in range(30):
        time.sleep(0.1)
        r = start("revoke", "x")
        try:
            r.wait(10)
        except subprocess.TimeoutExpired:
            bad("revoke hangs")
    slow(p, False)
    t.join(20)
check(p.alive() and p.cli("show", "y")[0] == 1 and p.url("y"), "the server is dead")
''', SLOW)

bug("notified-by-name", "C17", "a request replaced by a new one at the moment it is notified",
    "the new request counts as notified although it never was",
    [(NT, '''            let mut auth_cmds = Vec::new();
            let mut ct_lk''', '''            let mut auth_cmds = Vec::new();
            let mut notified = Vec::new();
            let ct_lk'''), (NT, '''                    let act = ct_lk.account(act_id);
                    if let Some(ref cmd) = ct_lk.config().auth_notify_cmd {
                        auth_cmds.push((act.name.to_owned(), cmd.clone(), url));
                    }
                    // A thread might currently be exchanging a code for a token for this account:
                    // notifying the user must not invalidate the `act_id` it holds.
                    ct_lk.tokenstate_set_last_notification(act_id, now);
                }
            }
            drop(ct_lk);
''', '''                    let act = ct_lk.account(act_id);
                    if let Some(ref cmd) = ct_lk.config().auth_notify_cmd {
                        auth_cmds.push((act.name.to_owned(), cmd.clone(), url));
                    }
                    notified.push(act.name.to_owned());
                }
            }
            drop(ct_lk);
'''), (NT, '''            for (act_name, cmd, url) in auth_cmds.into_iter() {
                thread''', '''            for act_name in notified.into_iter() {
                let mut ct_lk = pstate.ct_lock();
                if let Some(act_id) = ct_lk.validate_act_name(&act_name) {
                    if let TokenState::Pending { .. } = ct_lk.tokenstate(act_id) {
                        // A thread might currently be exchanging a code for a token for this account:
                        // notifying the user must not invalidate the `act_id` it holds.
                        ct_lk.tokenstate_set_last_notification(act_id, now);
                    }
                }
            }

            for (act_name, cmd, url) in auth_cmds.into_iter() {
                thread'''), (NT, '''            let notify_interval = ct_lk.config().auth_notify_interval; // Pulled out to avoid borrow checker problems.
''', '''            let notify_interval = ct_lk.config().auth_notify_interval; // Pulled out to avoid borrow checker problems.
            #[cfg(debug_assertions)]
            debug!("Notifier: looking for pending accounts");
''')], PRE + r'''
# Many accounts become pending at once, and each in turn is replaced at once: hundreds of times.
N = 40
p = Pz()
p.start(HEAD + NOTIFY + "".join(account("a%d" % i, ts) for i in range(N)))
sk = os.path.join(p.run, "pizauth", "pizauth.sock")
def cmd(b):
    s = socket.socket(socket.AF_UNIX)
    s.connect(sk)
    s.sendall(b)
    s.shutdown(socket.SHUT_WR)
    return recv_all(s)
for r in range(25):
    last = {}
    for i in range(N):
        for _ in range(3):
            u = cmd(b"refresh:withurl a%d" % i).decode()
            check(u.startswith("pending:http"), u)
            last["a%d" % i] = u[8:]
    t0 = time.monotonic()
    while True:
        told = set(p.lines("notify"))
        lost = [a for a, u in last.items() if a + " " + u not in told]
        if not lost:
            break
        check(time.monotonic() - t0 < 30, "never notified: %r" % lost)
        time.sleep(0.2)
    for a in last:
        cmd(b"revoke:" + a.encode())
    os.truncate(p.file("notify"), 0)
''')

bug("status-relock", "C24", "a token that arrives while status is being put together",
    "status kills the server if an account changes at that moment",
    [(MOD, '''            let ct_lk = pstate.ct_lock();
            let mut acts = Vec::new();
            for act_id in ct_lk.act_ids() {
                let act''', '''            let act_ids = pstate.ct_lock().act_ids().collect::<Vec<_>>();
            let mut acts = Vec::with_capacity(act_ids.len());
            for act_id in act_ids {
                let ct_lk = pstate.ct_lock();
                let act'''), (MOD, '''                acts.push(format!("{}: {st}", act.name));
''', '''                let act_name = act.name.clone();
                drop(ct_lk);
                acts.push([act_name.as_str(), ": ", st.as_str()].concat());
'''), (MOD, '''                    TokenState::Empty => "No access token".into(),
''', '''                    TokenState::Empty => String::from("No access token"),
''')], PRE + r'''
NAMES = [chr(97 + i) * (4999 - len(": No access token")) for i in range(4)]
go = threading.Event()
def answer(form, n):
    go.wait(20)
    return tok(n)
ts = TokenServer(answer)
p = server(HEAD + account("x", ts) + "".join(account(n, ts) for n in NAMES) + account("y", ts) + account("z", ts))
for n in "xyz":
    p.redirect(p.params(n))
wait(lambda: len(ts.reqs) == 3, "no exchanges")
slow(p)
r = start("status")
time.sleep(0.5)
go.set()
try:
    check(r.wait(30) == 0, "status fails")
except subprocess.TimeoutExpired:
    bad("status hangs")
slow(p, False)
check(p.alive(), "the server is dead")
''', SLOW)

bug("refresh-request-relock", "C06", "a token that arrives while the refresh command is carried out",
    "refresh of a pending account kills the server if its token arrives at that moment",
    [(MOD, '''                    TokenState::Empty | TokenState::Pending { .. } => {
                        let url = request_token(Arc::clone(&pstate), ct_lk, act_id)?;
                        if *with_url == "withurl" {
                            stream.write_all(format!("pending:{url:}").as_bytes())?;
                        } else {
                            stream.write_all(b"pending:")?;
                        }
                    }
                    TokenState::Active { .. } => {''', '''                    TokenState::Empty | TokenState::Pending { .. } => {
                        drop(ct_lk);
                        let msg = ["New authentication for ", *act_name].concat();
                        log::info!("{msg}");
                        let ct_lk = pstate.ct_lock();
                        let Some(act_id) = ct_lk.validate_act_name(act_name) else {
                            return Err("Account changed".into());
                        };
                        let url = request_token(Arc::clone(&pstate), ct_lk, act_id)?;
                        if *with_url == "withurl" {
                            stream.write_all(format!("pending:{url:}").as_bytes())?;
                        } else {
                            stream.write_all(b"pending:")?;
                        }
                    }
                    TokenState::Active { .. } => {''')], PRE + r'''
NAME = "n" * (4999 - len("New authentication for "))
go = threading.Event()
def answer(form, n):
    go.wait(20)
    return tok(n)
ts = TokenServer(answer)
p = server(HEAD + account(NAME, ts) + account("y", ts))
p.redirect(p.params(NAME))
wait(lambda: ts.reqs, "no exchange")
slow(p)
r = start("refresh", NAME)
time.sleep(0.5)
go.set()
try:
    r.wait(30)
except subprocess.TimeoutExpired:
    bad("refresh hangs")
slow(p, False)
check(p.alive() and p.url("y"), "the server is dead")
''', SLOW)

bug("refresher-by-name", "C07", "a reload that removes an account whose refresh has just become due",
    "the refresher dies, and with it the server",
    [(RF, '''                .collect::<HashSet<_>>();
            drop(ct_lk);

            for act_id in to_refresh.iter() {
                refresher.sched_refresh(Arc::clone(&pstate), *act_id);
            }
''', '''                .map(|act_id| ct_lk.account(act_id).name.clone())
                .collect::<HashSet<_>>();
            drop(ct_lk);

            // Always refresh in the same order.
            let mut to_refresh = to_refresh.iter().cloned().collect::<Vec<_>>();
            to_refresh.sort();
            for act_name in to_refresh.iter() {
                let act_id = pstate.ct_lock().validate_act_name(act_name).unwrap();
                refresher.sched_refresh(Arc::clone(&pstate), act_id);
            }
''')], PRE.replace("refresh_token=None", "refresh_token='R'") + r'''
NAME = "n" * 4999
ts = TokenServer(lambda form, n: tok(n, expires_in=6))
conf = HEAD + "refresh_before_expiry = 1s;\n" + account("x", ts)
for d in (0.3, 1.3, 2.3):
    p = server(conf + account(NAME, ts))
    p.auth(NAME)
    t = time.monotonic()
    time.sleep(2.5)
    slow(p)
    p.write(conf)
    time.sleep(t + 5 + d - time.monotonic())
    start("reload").wait(60)
    time.sleep(3)
    slow(p, False)
    check(p.alive() and p.url("x"), "the server is dead")
    n = len(ts.reqs)
    p.auth("x")
    wait(lambda: len(ts.reqs) >= n + 2, "x isn't refreshed", 20)
    p.close()
''', SLOW)

PIPE = r'''
import fcntl
def piped(conf):
    """A server whose log goes to a pipe that can be stopped up."""
    global rd, wr
    p = Pz()
    p.write(conf)
    rd, wr = os.pipe()
    fcntl.fcntl(wr, 1031, 4096)
    p.p = subprocess.Popen([BIN, "server", "-c", p.conf, "-d", "-v", "-v", "-v", "-v"], env=p.env, cwd=p.dir, stdin=subprocess.DEVNULL, stdout=wr, stderr=wr)
    threading.Thread(target=drain, daemon=True).start()
    for _ in range(100):
        if p.cli("status")[0] == 0:
            return p
        time.sleep(0.05)
    bad("the server doesn't start")
flow = threading.Event()
flow.set()
idle = threading.Event()
def drain():
    while True:
        if flow.is_set():
            idle.clear()
            import select
            if select.select([rd], [], [], 0.05)[0]:
                os.read(rd, 65536)
        else:
            idle.set()
            flow.wait()
def stop_up():
    flow.clear()
    idle.wait()
    os.set_blocking(wr, False)
    for n in (4096, 64, 1):
        try:
            while True:
                os.write(wr, b"\n" * n)
        except BlockingIOError:
            pass
    os.set_blocking(wr, True)
'''

bug("event-wakeup-lost", "C16", "a change at the moment the eventer has found its queue empty",
    "an event is not run until another one comes",
    [(EV, '''        thread::spawn(move || loop {
            let mut eventer_lk = self.pred.lock().unwrap();
            while''', '''        thread::spawn(move || loop {
            #[cfg(debug_assertions)]
            debug!("Eventer: waiting for events");
            let mut eventer_lk = self.pred.lock().unwrap();
            *eventer_lk = false;
            while'''), (EV, '''            *eventer_lk = false;
            drop(eventer_lk);
''', '''            drop(eventer_lk);
'''), (EV, "use log::error;\n", "#[cfg(debug_assertions)]\nuse log::debug;\nuse log::error;\n")], PIPE + r'''
p = piped(HEAD + 'token_event_cmd = "echo $PIZAUTH_EVENT >> @DIR@/events; while [ -e @DIR@/wait ]; do sleep 0.1; done";\n' + account("x", TokenServer()))
time.sleep(1)
for i in range(3):
    n = len(p.lines("events"))
    open(p.file("wait"), "w").close()
    p.cli("revoke", "x")
    wait(lambda: len(p.lines("events")) == n + 1, "no event")
    stop_up()
    os.unlink(p.file("wait"))
    time.sleep(1)
    r = subprocess.Popen([BIN, "revoke", "x"], env=p.env)
    time.sleep(1)
    flow.set()
    r.wait()
    wait(lambda: len(p.lines("events")) == n + 2, "the second event is not run", 6)
''')

bug("notify-wakeup-lost", "C17", "a request created at the moment the notifier decides how long to wait",
    "the user is notified about half a minute late",
    [(NT, '''            let next_wakeup = self.next_wakeup(&pstate);
            let mut notify_lk = self.pred.lock().unwrap();
            while''', '''            let next_wakeup = self.next_wakeup(&pstate);
            #[cfg(debug_assertions)]
            debug!("Notifier: anything to wait for? {}", next_wakeup.is_some());
            let mut notify_lk = self.pred.lock().unwrap();
            *notify_lk = false;
            while'''), (NT, '''            *notify_lk = false;
            drop(notify_lk);
''', '''            drop(notify_lk);
'''), (NT, '''                            #[cfg(debug_assertions)]
                            debug!("Notifier: next wakeup {}", d.as_secs().to_string());
''', ''), (NT, '''                        #[cfg(debug_assertions)]
                        debug!("Notifier: next wakeup <indefinite>");
''', '')], PIPE + r'''
ts = TokenServer()
p = piped(HEAD + NOTIFY + 'auth_notify_interval = 1h;\n' + account("x", ts) + account("y", ts))
time.sleep(1)
for i in range(3):
    stop_up()
    rs = [subprocess.Popen([BIN, "show", "x"], env=p.env, stderr=subprocess.DEVNULL)]
    time.sleep(1)
    rs.append(subprocess.Popen([BIN, "show", "y"], env=p.env, stderr=subprocess.DEVNULL))
    time.sleep(1)
    flow.set()
    for r in rs:
        r.wait()
    wait(lambda: sorted(l.split()[0] for l in p.lines("notify")) == ["x"] * (i + 1) + ["y"] * (i + 1), "not notified", 10)
    p.cli("revoke", "x")
    p.cli("revoke", "y")
    time.sleep(0.5)
''')
