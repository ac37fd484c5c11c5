"""Writes the hand-made saved cases: one per defect that was found (and repaired)."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus")


def acc(name="x", ep=0, **kw):
    d = {"name": name, "auth_uri": "http://auth.example/a", "client_id": "cid", "token_uri": {"ep": ep, "path": "/t"}}
    d.update(kw)
    return d


def conf(*accs, **kw):
    d = {"accounts": list(accs) or [acc()], "https_listen": "none", "auth_notify_cmd": "N0", "error_notify_cmd": "F0", "token_event_cmd": "E0"}
    d.update(kw)
    return {k: v for k, v in d.items() if v is not None}


def save(pid, name, ops, *confs, part="history", **kw):
    os.makedirs(os.path.join(ROOT, pid), exist_ok=True)
    case = dict(confs=list(confs) or [conf()], ops=ops, eps=4, **kw)
    with open(os.path.join(ROOT, pid, name + ".json"), "w") as f:
        json.dump(dict(property=pid, part=part, case=case), f, indent=1)


def auth(a=0, **ans):
    return [{"op": "show", "a": a}, {"op": "redir", "a": a}, {"op": "tok", "ans": dict({"kind": "ok"}, **ans)}]


def lost(a=0, kind="rst"):
    return [{"op": "refresh", "a": a}, {"op": "tok", "ans": {"kind": kind}}]


# far-future expiry
save("C24", "far-expiry", auth(exp=10 ** 13) + [{"op": "status"}])
save("C24", "year-10000", auth(exp=10 ** 12) + [{"op": "status"}])
# restore of a refused dump
save("C12", "restore-other-version", [{"op": "dump"}, {"op": "restore", "mut": "version", "x": 1}])
save("C12", "restore-bad-record", [{"op": "dump"}, {"op": "restore", "mut": "badplain", "x": 30}])
# reminder while an exchange is under way
save("C02", "reminder-during-exchange", [{"op": "show", "a": 0}, {"op": "adv", "ms": 885000}, {"op": "redir", "a": 0}, {"op": "adv", "ms": 20000},
                                         {"op": "tok", "ans": {"kind": "ok"}}, {"op": "show", "a": 0}])
# login_hint
save("C04", "login-hint", [{"op": "show", "a": 0}], conf(acc(login_hint="me@x.example", auth_uri_fields=[["k", "v"]])))
save("C01", "login-hint-changed", auth() + [{"op": "reload", "c": 1}, {"op": "show", "a": 0}], conf(acc(login_hint="a@x.example")), conf(acc(login_hint="b@x.example")))
save("C11", "login-hint-changed", auth() + [{"op": "dump"}, {"op": "reload", "c": 1}, {"op": "revoke", "a": 0}, {"op": "restore"}],
     conf(acc(login_hint="a@x.example")), conf(acc(login_hint="b@x.example")))
# verdict of transient_error_if_cmd after the account was revoked
six = [x for _ in range(6) for x in lost()]
save("C10", "verdict-after-revoke", [{"op": "mode", "kind": "transient", "mode": "hold"}] + auth() + six +
     [{"op": "revoke", "a": 0}, {"op": "cmd", "kind": "transient", "code": 1}], conf(transient_error_if_cmd="T0"))
# lifetimes that cannot be represented
HUGE = "18446744073709551615s"
save("C05", "unrepresentable-lifetime", [{"op": "show", "a": 0}, {"op": "redir", "a": 0}, {"op": "tok", "ans": {"kind": "bad", "set": {"expires_in": 2 ** 64 - 1}}}, {"op": "show", "a": 0}],
     conf(refresh_at_least=HUGE))
# request line without end
save("C20", "endless-request-line", [{"op": "flood", "kib": 8192, "head": "GET /?a=", "fill": "A", "finish": False}])
save("C20", "endless-header", [{"op": "flood", "kib": 8192, "head": "GET / HTTP/1.1\r\nX: ", "fill": "A", "finish": False}])
# drop of a token without refresh token
save("C08", "no-refresh-token-due", auth(rt="absent", exp=100) + [{"op": "adv", "ms": 20000}])
save("C16", "no-refresh-token-asked", auth(rt="absent") + [{"op": "refresh", "a": 0}])
# events queued while no command is configured
save("C16", "dropped-events-left-over", [{"op": "mode", "kind": "event", "mode": "hold"}] + [{"op": "revoke", "a": 0}] * 4 +
     [{"op": "reload", "c": 1}, {"op": "cmd", "kind": "event", "code": 0}, {"op": "reload", "c": 0}, {"op": "revoke", "a": 0}, {"op": "mode", "kind": "event", "mode": "auto"}],
     conf(), conf(token_event_cmd=None))
# unrepresentable intervals
save("C17", "endless-interval", [{"op": "show", "a": 0}, {"op": "show", "a": 1}, {"op": "revoke", "a": 1}, {"op": "show", "a": 1}], conf(acc(), acc("y", 1), auth_notify_interval=HUGE))
save("C07", "endless-retry", auth(exp=100) + lost() + [{"op": "adv", "ms": 200000}], conf(refresh_retry=HUGE))
# configuration texts
ACC = 'account "x" { auth_uri = "http://a.example/"; client_id = "c"; token_uri = "http://@EP0@/t"; %s }\n'
OFF = 'https_listen = none;\n'


def text(t, how="reload"):
    return {"op": "text", "text": t, "how": how}


save("C13", "redirect-scheme-case", [text(OFF + ACC % 'redirect_uri = "HTTPS://localhost/";'), text(OFF + ACC % 'redirect_uri = "HTTP://localhost/";'),
                                     text(OFF + ACC % 'redirect_uri = "HTTPS://localhost/";', "start")])
save("C13", "lists", [text(OFF + ACC % x) for x in ('scopes = []; scopes = [];', 'auth_uri_fields = {}; auth_uri_fields = {};', 'scopes = [, "a"];',
                                                    'auth_uri_fields = {, "a": "b"};', 'scopes = [];', 'auth_uri_fields = {};', 'scopes = ["a",];', 'scopes = ["a" "b"];')])
