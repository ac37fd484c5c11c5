from mk import bug
ST, RF, HS, MOD, RT, NT, EV, US, CF, MAIN = ("src/server/state.rs", "src/server/refresher.rs", "src/server/http_server.rs", "src/server/mod.rs",
    "src/server/request_token.rs", "src/server/notifier.rs", "src/server/eventer.rs", "src/user_sender.rs", "src/config.rs", "src/main.rs")

bug("killed-not-reaped", "C28", "event commands that overrun their time limit",
    "every event command that is killed stays behind as a zombie",
    [(EV, '''                                    child.kill().ok();
                                    child.wait().ok();
''', '''                                    child.kill().ok();
''')], r'''
p = Pz(HEAD + 'token_event_cmd = "exec sleep 100";\n' + account("x", TokenServer()))
n = lambda: sum(l.split(")")[1].split()[0] == "Z" for l in stats())
def stats():
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                s = open("/proc/%s/stat" % d).read()
            except OSError:
                continue
            if s.rsplit(")", 1)[1].split()[1] == str(p.p.pid):
                yield s
p.cli("revoke", "x")
wait(lambda: list(stats()), "no event command")
wait(lambda: not list(stats()), "the killed command is still there", 45)
''')

bug("notify-not-waited", "C28", "many notifications",
    "every run of auth_notify_cmd stays behind as a zombie",
    [(NT, """                            .args(["-c", &cmd])
                            .output()
                        {
                            Ok(output) => {
                                if !output.status.success() {
                                    error!(
                                        "{act_name:}: error when running '{cmd:}': {}",
                                        std::str::from_utf8(&output.stdout)
                                            .unwrap_or("<stderr not representable as UTF-8")
                                    );
                                }
                            }
""", """                            .args(["-c", &cmd])
                            .spawn()
                        {
                            // Some programs only exit when the user reacts, so don't wait for them.
                            Ok(_) => (),
""")], r"""
p = Pz(HEAD + 'auth_notify_interval = 1s;\n' + NOTIFY + account("x", TokenServer()))
p.url("x")
wait(lambda: len(p.lines("notify")) >= 5, "no notifications")
p.cli("revoke", "x")
time.sleep(1)
kids = open("/proc/%d/task/%d/children" % (p.p.pid, p.p.pid)).read().split()
for t in os.listdir("/proc/%d/task" % p.p.pid):
    kids += open("/proc/%d/task/%s/children" % (p.p.pid, t)).read().split()
check(len(set(kids)) < 3, "the server has %d children" % len(set(kids)))
""")

bug("failure-only-a-warning", "C05", "a failing authentication while error_notify_cmd isn't set",
    "without error_notify_cmd a failed authentication isn't reported in the log at its default level",
    [(NT, '''            None => error!("{act_name:}: {msg:}"),
''', '''            None => log::warn!("{act_name:}: {msg:}"),
''')], r'''
p = Pz()
ts = TokenServer(lambda form, n: (400, {"error": "nopenope"}))
p.start(HEAD + account("x", ts), args=("-d",))
p.redirect(p.params("x"))
wait(lambda: "nopenope" in open(p.file("stderr")).read(), "the failure isn't in the log", 10)
''')

WALL = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <time.h>
#include <stdio.h>
#include <stdlib.h>
/* Adds the number of seconds in the file $SKEW to the wall clock. */
int clock_gettime(clockid_t c, struct timespec *t) {
  static int (*real)(clockid_t, struct timespec *);
  if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
  int r = real(c, t);
  const char *n = getenv("SKEW");
  if (c == CLOCK_REALTIME && n) {
    FILE *f = fopen(n, "r");
    long x = 0;
    if (f) { if (fscanf(f, "%ld", &x) == 1) t->tv_sec += x; fclose(f); }
  }
  return r;
}
'''
WSKEW = r'''
def skewed(conf):
    p = Pz()
    open(p.file("skew"), "w").write("0")
    p.env.update(LD_PRELOAD=os.environ["SHIM"], SKEW=p.file("skew"))
    p.start(conf)
    return p
'''

bug("dump-anchors-clock-once", "C11", "the wall clock being set between two dumps of the same server",
    "a dump made after the wall clock was set has the tokens expire at wrong times",
    [(ST, '''            let t;
            if let Some(d) = i.checked_duration_since(Instant::now()) {
                // Instant is in the future
                t = SystemTime::now().checked_add(d);
            } else if let Some(d) = Instant::now().checked_duration_since(*i) {
                // Instant is in the past
                t = SystemTime::now().checked_sub(d);
''', '''            // Use the same point of reference for all times, so that their order is preserved.
            static NOW: std::sync::OnceLock<(Instant, SystemTime)> = std::sync::OnceLock::new();
            let (now, sys_now) = NOW.get_or_init(|| (Instant::now(), SystemTime::now()));
            let t;
            if let Some(d) = i.checked_duration_since(*now) {
                // Instant is in the future
                t = sys_now.checked_add(d);
            } else if let Some(d) = now.checked_duration_since(*i) {
                // Instant is in the past
                t = sys_now.checked_sub(d);
''')], WSKEW + r'''
ts = TokenServer(lambda form, n: tok(n, refresh_token=None))
p = skewed(HEAD + account("x", ts))
p.auth("x")
p.cli("dump")
open(p.file("skew"), "w").write("36000")
time.sleep(1)
d = p.cli("dump")[1]
p.cli("revoke", "x")
p.cli("restore", stdin=d)
check(p.show("x") == "AT1", "a dump made after the clock was put forward restores an expired token")
''', shim=WALL)

bug("show-reads-once", "C06", "an access token of more than 64 KiB",
    "long access tokens are cut off by show",
    [(US, '''        .write_all(format!("showtoken:{with_url:} {account:}").as_bytes())
        .map_err(|_| "Socket not writeable")?;
    stream.shutdown(Shutdown::Write)?;

    let mut rtn = String::new();
    stream.read_to_string(&mut rtn)?;
''', '''        .write_all(format!("showtoken:{with_url:} {account:}").as_bytes())
        .map_err(|_| "Socket not writeable")?;
    stream.shutdown(Shutdown::Write)?;

    let mut buf = vec![0; 64 * 1024];
    let n = stream.read(&mut buf)?;
    let rtn = String::from_utf8_lossy(&buf[..n]);
''')], r'''
ts = TokenServer(lambda form, n: tok(n, access_token="A" * 100000))
p = Pz(HEAD + account("x", ts))
p.auth("x")
check(p.show("x") == "A" * 100000, "show prints another token")
''')

bug("event-queue-kept-locked", "C16", "a token change at the moment the event runner looks up the command for an earlier one",
    "the server deadlocks: the event runner has the queue and wants the state, the other thread has the state and wants the queue",
    [(EV, '''                let (act_name, event) =
                    if let Some((act_name, event)) = self.event_queue.lock().unwrap().pop_front() {
                        (act_name, event)
                    } else {
                        break;
                    };
''', '''                let mut queue = self.event_queue.lock().unwrap();
                let (act_name, event) = match queue.pop_front() {
                    Some(x) => x,
                    None => break,
                };
                #[cfg(debug_assertions)]
                log::debug!("Eventer: {} events to go", queue.len());
'''), (EV, '''                    token_event_cmd
                } else {
''', '''                    drop(queue);
                    token_event_cmd
                } else {
''')], r'''
import pty
r, w = os.pipe()
flow = threading.Event()
flow.set()
def pump():
    while True:
        flow.wait()
        if not os.read(r, 65536):
            return
threading.Thread(target=pump, daemon=True).start()
p = Pz()
p.write(HEAD + 'token_event_cmd = "echo $PIZAUTH_EVENT >> @DIR@/events";\n' + account("x", TokenServer()))
p.p = subprocess.Popen([BIN, "server", "-c", p.conf, "-d", "-v", "-v", "-v", "-v"], env=p.env, cwd=p.dir, stdin=subprocess.DEVNULL, stdout=w, stderr=w)
wait(lambda: p.cli("status")[0] == 0, "no server")
time.sleep(0.5)
import fcntl
for i in range(3):
    n = len(p.lines("events"))
    flow.clear()
    time.sleep(0.2)
    # let the server's next message block
    fl = fcntl.fcntl(w, fcntl.F_GETFL)
    w2 = os.open("/proc/self/fd/%d" % w, os.O_WRONLY | os.O_NONBLOCK)
    try:
        while True:
            os.write(w2, b"." * 4096)
    except BlockingIOError:
        pass
    try:
        while True:
            os.write(w2, b".")
    except BlockingIOError:
        pass
    os.close(w2)
    a = subprocess.Popen([BIN, "revoke", "x"], env=p.env)
    time.sleep(0.7)
    b = subprocess.Popen([BIN, "revoke", "x"], env=p.env)
    time.sleep(0.7)
    flow.set()
    for q in (a, b):
        try:
            q.wait(timeout=10)
        except subprocess.TimeoutExpired:
            q.kill()
            bad("revoke hangs")
    wait(lambda: len(p.lines("events")) == n + 2, "events are missing", 10)
''')

bug("restore-doesnt-wake-refresher", "C11", "a restored token that falls due while nothing else wakes the refresher",
    "tokens that were restored are not refreshed at their time",
    [(ST, '''        self.locked_state.lock().unwrap().restore(d)?;
        self.notifier.notify_changes();
        self.refresher.notify_changes();
''', '''        self.locked_state.lock().unwrap().restore(d)?;
        self.notifier.notify_changes();
''')], r'''
ts = TokenServer(lambda form, n: tok(n, expires_in=100))
p = Pz(HEAD + "refresh_before_expiry = 92s;\n" + account("x", ts))
p.redirect(p.params("x"))
wait(lambda: p.show("x"), "no token")
d = p.cli("dump")[1]
p.cli("revoke", "x")
time.sleep(9)
n = len(ts.refreshes())
p.cli("restore", stdin=d)
wait(lambda: len(ts.refreshes()) > n, "no refresh", 10)
''')

bug("scopes-unordered", "C01", "a reload that only changes the order of the scopes",
    "an account keeps its token although the scopes of the new configuration are in another order",
    [(CF, "            && self.scopes == other.scopes", '''            && self.scopes.len() == other.scopes.len()
            && self.scopes.iter().all(|x| other.scopes.contains(x))''')], r'''
ts = TokenServer()
p = Pz(HEAD + account("x", ts, 'scopes = ["a", "b"];'))
p.auth("x")
p.reload(HEAD + account("x", ts, 'scopes = ["b", "a"];'))
check(p.show("x") is None, "the token is kept")
''')

bug("event-queue-bounded", "C16", "more than 64 token changes while one event command runs",
    "events are lost if many are waiting for a slow command",
    [(EV, '''        self.event_queue.lock().unwrap().push_back((act_name, kind));
''', '''        let mut queue = self.event_queue.lock().unwrap();
        // Don't use an unbounded amount of memory if commands are very slow.
        if queue.len() >= 64 {
            error!("{act_name:}: too many events: dropping {kind:}");
            return;
        }
        queue.push_back((act_name, kind));
        drop(queue);
''')], r'''
p = Pz(HEAD + 'token_event_cmd = "while [ -e @DIR@/wait ]; do sleep 0.1; done; echo $PIZAUTH_EVENT >> @DIR@/events";\n' + account("x", TokenServer()))
open(p.file("wait"), "w").close()
for i in range(80):
    p.cli("revoke", "x")
os.unlink(p.file("wait"))
wait(lambda: len(p.lines("events")) == 80, "only some of 80 events are run")
''')

bug("refresh-slots", "C09", "eight accounts whose token servers are slow",
    "an account's refresh waits for those of others once eight are waiting for their token servers",
    [(RF, '''pub struct Refresher {
    pred: Mutex<bool>,
    condvar: Condvar,
}
''', '''pub struct Refresher {
    pred: Mutex<bool>,
    condvar: Condvar,
    /// How many requests are being made at the moment?
    requests: Mutex<usize>,
    request_over: Condvar,
}

/// How many requests do we make at the same time?
const MAX_REQUESTS: usize = 8;
'''), (RF, '''            pred: Mutex::new(false),
            condvar: Condvar::new(),
        })
''', '''            pred: Mutex::new(false),
            condvar: Condvar::new(),
            requests: Mutex::new(0),
            request_over: Condvar::new(),
        })
'''), (RF, '''        drop(ct_lk);
        let body = match ureq::AgentBuilder::new()
            .timeout(UREQ_TIMEOUT)
            .build()
            .post(token_uri.as_str())
            .send_form(&pairs)
        {
''', '''        drop(ct_lk);
        {
            // Don't overwhelm the machine after a suspend.
            let mut requests = self.requests.lock().unwrap();
            while *requests >= MAX_REQUESTS {
                requests = self.request_over.wait(requests).unwrap();
            }
            *requests += 1;
        }
        let result = ureq::AgentBuilder::new()
            .timeout(UREQ_TIMEOUT)
            .build()
            .post(token_uri.as_str())
            .send_form(&pairs);
        *self.requests.lock().unwrap() -= 1;
        self.request_over.notify_one();
        let body = match result {
''')], r'''
go = threading.Event()
def answer(form, n):
    if form["grant_type"] == "refresh_token":
        go.wait(60)
    return tok(n)
ts = TokenServer(answer)
ts2 = TokenServer()
p = Pz(HEAD + "".join(account("x%d" % n, ts) for n in range(8)) + account("y", ts2))
for n in range(8):
    p.auth("x%d" % n)
p.auth("y")
for n in range(8):
    p.cli("refresh", "x%d" % n)
wait(lambda: len(ts.refreshes()) == 8, "no refreshes")
p.cli("refresh", "y")
try:
    wait(lambda: ts2.refreshes(), "the refresh of y waits for those of the others", 8)
finally:
    go.set()
''')

bug("fails-counted-in-a-byte", "C10", "255 failures of refreshing in a row",
    "the thread that counts the 256th failure in a row panics, and with it the server",
    [(ST, "consecutive_refresh_fails: u64", "consecutive_refresh_fails: u8"), (RF, "const TRANSIENT_ERROR_RETRIES: u64", "const TRANSIENT_ERROR_RETRIES: u8")], r'''
ts = TokenServer(lambda form, n: tok(n) if form["grant_type"] != "refresh_token" else None)
p = Pz(HEAD + account("x", ts))
p.auth("x")
for i in range(262):
    n = len(ts.refreshes())
    p.cli("refresh", "x")
    wait(lambda: len(ts.refreshes()) > n, "failure %d is the last" % n, 10)
    time.sleep(0.05)
check(p.alive(), "the server is dead")
check(p.show("x"), "the token is lost")
''')
