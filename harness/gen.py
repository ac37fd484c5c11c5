"""Hypothesis strategies: configurations, operations and whole scenarios, weighted by a property's profile."""
import copy, json

from hypothesis import strategies as st

from . import conf as C

NAMES = ["x", "y", "z", "w"]
WEIRD = ["x ", " x", "X", "x:y", "x y", "-u", "--", "x\"q\"", "back\\slash", "\u00fcmlaut \u2603", "x\ny", "x: No access token",
         "withurl x", "a@b.example", "ok:", "", "'$HOME'", "x\t", "\U0001f511", "{}", "%s", "//x"]
MIXED = ["a", "B", "c", "D", "_e", "Z", "\u00e9", "10", "9", "a-b", "a.b", "aB", "ab", "E"]
AUTH_URIS = ["http://auth.example/a", "https://auth.example/o/oauth2?prompt=consent", "http://auth.example:81/a%20b?x=1&y=%26",
             "https://auth.example", "https://auth.example/p?state_hint=%C3%A9#frag"]
FIELDS = [["login_hint", "me@x.example"], ["k", "v"], ["k", "v2"], ["prompt", "a b&c=d"], ["\u00e9", "\u2603 +%"], ["k", ""], ["access", "x"]]
CLIENT_IDS = ["cid", "other client", "c&i=d+%\u00e9", "12345.apps.example"]
SECRETS = ["S3cret-AAA", "S3cret&=+ %BB", "S3cret-\u00fc\u2603C", "S3cret\"q\\D"]
REDIRS = [None, "http://localhost/", "http://localhost", "http://127.0.0.1/", "http://localhost/cb", "http://localhost:1234/cb?x=1",
          "http://LOCALHOST/", "http://auth.redirect.example/a%20b", "http://127.0.0.1/cb", "http://10.1.2.3:8080/", "http://[::1]/cb"]
REDIRS_IP = ["http://127.0.0.1/", "http://127.0.0.1/cb", "http://10.1.2.3:8080/", "http://[::1]/cb"]
REDIRS_TLS = ["https://localhost/", "https://localhost/cb", "https://127.0.0.1:99/", "HTTPS://localhost/x"]
SCOPES = [None, [], ["a"], ["a", "b"], ["b", "a"], ["https://mail.example/.default", "offline access", "\u00e9&+"]]
PATHS = ["/t", "/token?x=1", "/t2/%20"]
INTERVALS = ["20s", "45s", "5m", "15m", "2h"]
T_LEAST = ["1s", "70s", "10m", "90m", "1h", "3h", "2d"]
T_BEFORE = ["0s", "1s", "30s", "90s", "5m", "2h"]
T_RETRY = ["7s", "40s", "45s", "10m", "1h"]
HUGE = ["18446744073709551615s", "213503982334601d", "9223372036854775807s", "9000000000000000000s", "300000d"]
KINDS = ["notify", "error", "event", "transient"]
KEY = {"notify": "auth_notify_cmd", "error": "error_notify_cmd", "event": "token_event_cmd", "transient": "transient_error_if_cmd"}
LETTER = {"notify": "N", "error": "F", "event": "E", "transient": "T"}


def pick(xs):
    return st.sampled_from(list(xs))


def chance(p):
    """True with probability about p; shrinks to False."""
    return st.integers(0, 99).map(lambda x: x >= 100 - int(p * 100))


def weighted(d):
    """Draws a key of d, with the given integer weights."""
    l = [k for k, w in d.items() for _ in range(w)]
    return st.sampled_from(l)


@st.composite
def account(draw, prof, name):
    a = {"name": name, "auth_uri": draw(pick(AUTH_URIS)) if draw(chance(0.5)) else AUTH_URIS[0],
         "client_id": draw(pick(CLIENT_IDS)) if draw(chance(0.4)) else "cid"}
    a["token_uri"] = {"ep": draw(st.integers(0, prof.get("eps", 4) - 1)), "path": draw(pick(PATHS)) if draw(chance(0.3)) else "/t"}
    if prof.get("tls"):
        a["token_uri"]["tls"] = True
    if draw(chance(0.6)):
        a["client_secret"] = draw(pick(SECRETS)) if draw(chance(0.94)) else ""
    if draw(chance(prof.get("fields", 0.3))):
        a["auth_uri_fields"] = draw(st.lists(pick(FIELDS), max_size=4))
    if draw(chance(prof.get("hint", 0.12))) and not any(k == "login_hint" for k, v in a.get("auth_uri_fields") or []):
        a["login_hint"] = draw(pick(["hint@x.example", "a b&c"]))
    if draw(chance(prof.get("https", 0.0))):
        a["redirect_uri"] = draw(pick(REDIRS_TLS))
    elif draw(chance(0.5)):
        a["redirect_uri"] = draw(pick(REDIRS)) if not draw(chance(prof.get("ip_redirs", 0.0))) else draw(pick(REDIRS_IP))
    if draw(chance(0.5)):
        a["scopes"] = draw(pick(SCOPES))
    draw_timing(draw, prof, a, prof.get("acc_timing", 0.25))
    return {k: v for k, v in a.items() if v is not None}


def draw_timing(draw, prof, d, p):
    for k, vals in (("refresh_at_least", T_LEAST), ("refresh_before_expiry", T_BEFORE), ("refresh_retry", T_RETRY)):
        if draw(chance(p)):
            if prof.get("huge") and draw(chance(prof["huge"])):
                vals = HUGE
            d[k] = draw(pick(vals))


def cmd_text(draw, kind, ver):
    t = "%s%d" % (LETTER[kind], ver)
    return t + (draw(pick(["", " \"quoted\" \\", " $PIZAUTH_ACCOUNT", " \u00e9'", "\nline"])) if draw(chance(0.2)) else "")


@st.composite
def base_conf(draw, prof):
    lo, hi = prof.get("accounts", (1, 3))
    n = draw(st.integers(lo, hi))
    if n > 4:
        names = ["n%d" % i for i in range(n)]
    elif draw(chance(prof.get("weird", 0.25))):
        names = draw(st.lists(pick(NAMES[:2] + WEIRD), min_size=n, max_size=n, unique=True))
    elif n > 1 and draw(chance(prof.get("mixed", 0.15))):
        names = draw(st.lists(pick(MIXED), min_size=n, max_size=n, unique=True))
    else:
        names = NAMES[:n]
    accs = [draw(account(prof, nm)) for nm in names]
    if n > 1 and draw(chance(prof.get("twins", 0.25))):
        accs[1] = dict(copy.deepcopy(accs[0]), name=names[1])
        if prof.get("twin_apart"):
            accs[1]["token_uri"] = {"ep": (accs[0]["token_uri"]["ep"] + 1) % prof.get("eps", 4), "path": accs[0]["token_uri"]["path"]}
    c = {"accounts": accs}
    pc = prof.get("cmds", {})
    for k in KINDS:
        if draw(chance(pc.get(k, 0.7))):
            c[KEY[k]] = cmd_text(draw, k, 0)
    if draw(chance(prof.get("interval", 0.3))):
        vals = INTERVALS
        if prof.get("huge") and draw(chance(prof["huge"])):
            vals = HUGE
        c["auth_notify_interval"] = draw(pick(vals))
    draw_timing(draw, prof, c, prof.get("glob_timing", 0.15))
    needs_tls = any((a.get("redirect_uri") or "").lower().startswith("https") for a in accs)
    needs_http = any(not (a.get("redirect_uri") or "").lower().startswith("https") for a in accs)
    if not needs_tls and draw(chance(prof.get("no_https", 0.85))):
        c["https_listen"] = "none"
    elif not needs_http and draw(chance(prof.get("no_http", 0.3))):
        c["http_listen"] = "none"
    for l, port in (("http_listen", 18080), ("https_listen", 18443)):
        if c.get(l) is None and draw(chance(prof.get("own_listen", 0.05))):
            c[l] = {"own": port}
    return c


SHORT = {"refresh_at_least": ["1s", "20s", "95s"], "refresh_before_expiry": ["80s", "50m", "59m"], "refresh_retry": ["7s", "9s", "50s"]}
SEC_EDITS = ["client_id", "client_secret", "redirect_uri", "scopes", "scope_order", "auth_uri", "fields", "field_order", "token_path",
             "token_ep", "hint", "secret_none", "secret_empty", "scopes_none", "rename", "swap"]
BENIGN = ["acc_timing", "timing", "timing_drop", "cmd_text", "cmd_drop", "cmd_add", "interval", "reorder", "add", "remove", "same_redirect", "noop"]


@st.composite
def edit(draw, prof, conf, ver, used):
    c = copy.deepcopy(conf)
    i = draw(st.integers(0, len(c["accounts"]) - 1))
    a = c["accounts"][i]
    kinds = [k for k in SEC_EDITS for _ in range(prof.get("sec_edits", 1))] + [k for k in BENIGN for _ in range(prof.get("benign_edits", 1))] + \
        [k for k, w in prof.get("edits", {}).items() for _ in range(w)]
    k = draw(pick(kinds))
    tls = (a.get("redirect_uri") or "").lower().startswith("https")
    if k == "client_id":
        a["client_id"] += "v%d" % ver
    elif k == "client_secret":
        a["client_secret"] = a.get("client_secret", "S3cret-") + "v%d" % ver
    elif k == "secret_none":
        if a.pop("client_secret", None) is None:
            a["client_secret"] = "S3cret-new%d" % ver
    elif k == "secret_empty":
        if a.get("client_secret") == "":
            a.pop("client_secret")
        else:
            a["client_secret"] = ""
    elif k == "redirect_uri":
        a["redirect_uri"] = ("https" if tls else "http") + "://localhost/v%d" % ver
    elif k == "scopes":
        a["scopes"] = list(a.get("scopes") or []) + ["v%d" % ver]
    elif k == "scope_order":
        s = list(a.get("scopes") or [])
        a["scopes"] = s[::-1] if s[::-1] != s else s + ["r"]
    elif k == "scopes_none":
        if a.get("scopes"):
            a.pop("scopes")
        else:
            a["scopes"] = []
    elif k == "auth_uri":
        a["auth_uri"] = "http://auth.example/v%d" % ver
    elif k == "fields":
        a["auth_uri_fields"] = list(a.get("auth_uri_fields") or []) + [["v", str(ver)]]
    elif k == "field_order":
        s = list(a.get("auth_uri_fields") or [])
        a["auth_uri_fields"] = s[::-1] if s[::-1] != s else s + [["o", "p"]]
    elif k == "hint":
        if not any(f[0] == "login_hint" for f in a.get("auth_uri_fields") or []):
            a["login_hint"] = "hint-v%d" % ver
    elif k == "token_path":
        a["token_uri"] = dict(a["token_uri"], path="/v%d" % ver)
    elif k == "token_ep":
        a["token_uri"] = dict(a["token_uri"], ep=(a["token_uri"]["ep"] + 1) % prof.get("eps", 4))
    elif k == "rename":
        a["name"] = a["name"] + "2" if a["name"] + "2" not in [b["name"] for b in c["accounts"]] else a["name"]
    elif k == "swap":
        if len(c["accounts"]) > 1:
            j = (i + 1) % len(c["accounts"])
            b = c["accounts"][j]
            a["name"], b["name"] = b["name"], a["name"]
    elif k == "acc_timing":
        draw_timing(draw, prof, a, 0.6)
        # often one that makes something due earlier
        x = draw(pick(list(SHORT) + [None]))
        if x is not None:
            a[x] = draw(pick(SHORT[x]))
    elif k == "timing":
        draw_timing(draw, prof, c, 0.6)
    elif k == "timing_drop":
        for d in [c, a]:
            for x in ("refresh_at_least", "refresh_before_expiry", "refresh_retry"):
                if draw(chance(0.6)):
                    d.pop(x, None)
    elif k == "interval":
        c["auth_notify_interval"] = draw(pick(INTERVALS))
    elif k in ("cmd_text", "cmd_drop", "cmd_add"):
        ks = [KEY[x] for x in KINDS]
        have = [x for x in ks if c.get(x) is not None]
        if k == "cmd_drop" and have:
            c.pop(draw(pick(have)))
        elif k == "cmd_text" and have:
            x = draw(pick(have))
            c[x] = cmd_text(draw, [q for q in KINDS if KEY[q] == x][0], ver)
        elif k == "cmd_add":
            for x in KINDS:
                # a reminder command that appears while requests are pending is a separate story
                if c.get(KEY[x]) is None and x != "notify":
                    c[KEY[x]] = cmd_text(draw, x, ver)
                    break
    elif k == "reorder":
        c["accounts"].reverse()
    elif k == "add":
        nm = "new%d" % ver
        c["accounts"].append(dict(copy.deepcopy(a), name=nm))
    elif k == "remove":
        if len(c["accounts"]) > 1:
            c["accounts"].pop(i)
    elif k == "same_redirect":
        if a.get("redirect_uri") is None:
            a["redirect_uri"] = "http://localhost/"
        elif a["redirect_uri"] == "http://localhost/":
            a.pop("redirect_uri")
    return c


@st.composite
def confs(draw, prof):
    base = draw(base_conf(prof))
    out = [base]
    n = draw(st.integers(*prof.get("variants", (0, 0))))
    for v in range(1, n + 1):
        src = out[0] if draw(chance(0.7)) else out[-1]
        c = draw(edit(prof, src, v, None))
        if draw(chance(0.3)):
            c = draw(edit(prof, c, v + 10, None))
        out.append(c)
    return out


# ---------- answers of a token server ----------

AT = ["ya29:abc:def", "a:b", "::", "pending:http://x/", "error:no", "tok", "tok with space", "t\u00f6k\u2603", "\"q\"\\", "ya29.a0Af_by-" + "x" * 300, "L" * 9000, "M" * 70000, "ok:x", "tok\u2028", "-n", ":"]


@st.composite
def ans_ok(draw, prof):
    a = {"kind": "ok"}
    if draw(chance(0.7)):
        a["exp"] = draw(pick(prof.get("exps", [3600, 3600, 3599, 7200, 100, 91, 45, 1, 86400])))
    rt = draw(pick(["new"] * 8 + ["absent"] * prof.get("no_rt", 3) + ["null", "num", "obj"]))
    if rt != "new":
        a["rt"] = rt
    if draw(chance(prof.get("at", 0.15))):
        a["at"] = draw(pick(AT))
    if draw(chance(0.1)):
        a["rtval"] = draw(pick(["rt-same-value", "r t&=+%\u00e9", "R" * 3000]))
    if draw(chance(0.3)):
        a["enc"] = draw(pick(["chunked", "close"]))
    if draw(chance(0.15)):
        a["extra"] = draw(pick([[["scope", "a b"]], [["id_token", "xx.yy"], ["error_description", "fine"]], [["error", None]], [["nested", {"access_token": "no"}]],
                                [["ext_expires_in", 1]]]))
    if draw(chance(0.1)):
        a["ws"] = True
    if draw(chance(0.1)):
        a["ct"] = draw(pick(["text/plain", "application/json; charset=utf-8", "application/x-www-form-urlencoded"]))
    if draw(chance(0.1)):
        a["status"] = draw(pick([201, 202]))
    if draw(chance(0.2)):
        a[draw(pick(["sorted", "ascii"]))] = True
    return a


@st.composite
def ans_refused(draw, prof):
    k = draw(pick(["status", "status", "oauth", "oauth", "bad", "bad", "bad"]))
    if k == "status":
        return {"kind": "status", "status": draw(pick([400, 401, 403, 404, 408, 410, 418, 425, 429, 500, 501, 502, 503, 504, 507, 599])),
                "body": draw(pick(["", "{\"error\": \"invalid_grant\"}", "oops \u00e9", "<html>", "{\"access_token\": \"atS-bad\", \"token_type\": \"Bearer\", \"expires_in\": 3600}"])), "enc": draw(pick(["len", "chunked"]))}
    if k == "oauth":
        return {"kind": "oauth", "error": draw(pick(["invalid_grant", "access_denied", "weird \u00e9 'quote\" error", "temporarily_unavailable"])),
                "more": draw(pick([{}, {"error_description": "d"}, {"access_token": "atX-bad", "token_type": "Bearer", "expires_in": 3600}]))}
    if draw(chance(0.4)):
        return {"kind": "bad", "raw": draw(pick(["", "{", "[]", "null", "\"x\"", "{}", "<html></html>", "{\"access_token\": \"atY-bad\", \"token_type\": \"Bearer\", \"expires_in\": 3600",
                                              "{\"access_token\": \"atZ-bad\", \"token_type\": \"Bearer\", \"expires_in\": 3600} x",
                                              "access_token=a&token_type=Bearer&expires_in=3600"]))}
    if draw(chance(0.5)):
        return {"kind": "bad", "drop": [draw(pick(["access_token", "token_type", "expires_in"]))]}
    return {"kind": "bad", "set": draw(pick([{"token_type": "mac"}, {"token_type": None}, {"token_type": ""}, {"expires_in": "3600"}, {"expires_in": -1},
                                          {"expires_in": None}, {"access_token": None}, {"access_token": 5}, {"access_token": ["x"]}, {"token_type": "BearerX"},
                                          {"expires_in": []}]))}


@st.composite
def ans_lost(draw, prof):
    k = draw(pick(["rst", "eof", "trunc", "headcut"]))
    a = {"kind": k}
    if k in ("trunc", "headcut"):
        a["cut"] = draw(st.integers(0, 60))
    return a


def answers(prof):
    w = prof.get("answers", {"ok": 6, "refused": 2, "lost": 2})
    return weighted(w).flatmap(lambda k: {"ok": ans_ok, "refused": ans_refused, "lost": ans_lost}[k](prof))


# ---------- operations ----------

def acc_i(prof):
    return st.integers(0, prof.get("accounts", (1, 3))[1] - 1)


@st.composite
def redir_ok(draw, prof, a):
    o = {"op": "redir", "a": a}
    if draw(chance(0.25)):
        o["codeval"] = draw(pick(["4/0Ab-cd_e", "a b&c=d+%\u00e9", "C" * 2000, "code\u2603", "#?/:"]))
    if draw(chance(0.2)):
        o["rev"] = True
    if draw(chance(0.15)):
        o["enc"] = True
    if draw(chance(0.2)):
        o["extra"] = draw(pick([[["scope", "a b"]], [["session_state", "zz"], ["iss", "http://x"]], [["code", "SECOND"]], [["state", "SECOND"]], [["k", ""]], [["ERROR", "x"]]]))
    if draw(chance(0.15)):
        o["host"] = "upper"
    if draw(chance(0.15)):
        o["path"] = draw(pick(["/", "/cb", "/a/b%20c", "/other"]))
    if draw(chance(prof.get("frag", 0.15))):
        o["headers"] = draw(st.lists(pick([["User-Agent", "x/1"], ["Accept", "*/*"], ["X-Host", "evil"], ["Cookie", "a=b; host: x"], ["Connection", "close"],
                                           ["X-Long", "y" * 3000], ["X-Cont", "a\r\n  folded"], ["X-Utf8", "v"], ["hosts", "zz"], ["Empty", ""]]), max_size=4))
        o["hostpos"] = draw(st.integers(0, 4))
        o["hostcase"] = draw(pick(["Host", "host", "HOST", "hOsT"]))
        o["sep"] = draw(pick([": ", ":", ":  ", ":\t ", ":\t"]))
        o["cuts"] = draw(st.lists(st.integers(0, 400), max_size=4))
    if prof.get("edge") and draw(chance(0.2)):
        if draw(chance(0.5)):
            o["codeval"] = ""
        else:
            o["sep"] = ":\r\n "
    return o


@st.composite
def redir_bad(draw, prof, a):
    o = {"op": "redir", "a": a}
    k = draw(pick(["old", "old", "near", "rand", "none", "host", "host", "host", "listener", "listener", "nocode", "dup", "error+"]))
    if k == "old":
        o.update(state="old", k=draw(st.integers(0, 5)))
    elif k == "near":
        o.update(state="near", k=draw(st.integers(0, 5)))
    elif k == "rand":
        o.update(state="rand", val=draw(pick(["AAAAAAAAAAA", "", " ", "\u00e9", "x" * 500])))
    elif k == "none":
        o.update(state="none")
    elif k == "host":
        o.update(host=draw(pick(["other", "ip", "ip6", "ipx", "sub", "pre", "port", "noport", "otherport", "userinfo", "empty", "dot"])))
        if draw(chance(0.25)):
            o.update(listener=draw(pick(["http", "https"])))
    elif k == "listener":
        o.update(listener=draw(pick(["http", "https"])))
        if draw(chance(0.5)):
            o.update(host=draw(pick(["otherport", "otherport", "port", "noport"])))
    elif k == "nocode":
        o.update(code=False)
    elif k == "dup":
        o.update(state="dup")
    else:
        o.update(error=draw(pick(["access_denied", "e \u00e9"])), host=draw(pick(["other", "port", "sub"])))
    if o.get("host") is None and draw(chance(0.2)):
        o["error"] = "access_denied"
        if k in ("nocode",):
            o.pop("error")
    if prof.get("edge") and draw(chance(0.2)):
        if draw(chance(0.5)):
            # a request that isn't one for a page
            return {"op": "redir", "a": a, "broke": draw(pick(["POST", "HEAD", "PUT", "get", "nohost", "leadfold", "shost"]))}
        return {"op": "redir", "a": a, "host2": draw(pick(["same", "other", "empty"])), "host2first": draw(chance(0.5))}
    return o


@st.composite
def m_begin(draw, prof):
    o = {"op": draw(pick(["show", "show", "refresh"])), "a": draw(acc_i(prof)), "u": draw(chance(0.25))}
    if draw(chance(prof.get("forms", 0.2))):
        o["form"] = draw(st.integers(1, 3))
    return [o]


@st.composite
def m_auth(draw, prof):
    a = draw(acc_i(prof))
    return [{"op": "show", "a": a}, draw(redir_ok(prof, a)), {"op": "tok", "ans": draw(ans_ok(prof))}]


@st.composite
def m_auth_all(draw, prof):
    out = []
    for a in range(prof.get("accounts", (1, 3))[1]):
        out += [{"op": "show", "a": a}, draw(redir_ok(prof, a)), {"op": "tok", "ans": draw(ans_ok(prof))}]
    return out


@st.composite
def m_exchange(draw, prof):
    a = draw(acc_i(prof))
    return [{"op": "show", "a": a}, draw(redir_ok(prof, a))]


@st.composite
def m_tok(draw, prof):
    return [{"op": "tok", "k": draw(st.integers(0, 3)), "ans": draw(answers(prof))}]


@st.composite
def m_many(draw, prof):
    """A lot of what the property is about, at once."""
    return [o for _ in range(draw(st.integers(*prof.get("manyn", (4, 14))))) for o in draw(weighted(prof["many"]).flatmap(lambda k: MACROS[k](prof)))]


STATUSES = [400, 401, 402, 403, 404, 405, 406, 408, 409, 410, 413, 415, 418, 421, 422, 423, 424, 425, 426, 428, 429, 431, 451, 499, 500, 501, 502, 503, 504, 505, 507, 508, 511, 520, 599]


@st.composite
def m_refusals(draw, prof):
    """One refusal after the other, of exchanges or of refreshes."""
    a = draw(acc_i(prof))
    refresh = draw(chance(prof.get("refusals_refresh", 0.5)))
    out = []
    for _ in range(draw(st.integers(3, 10))):
        out += [{"op": "show", "a": a}, {"op": "redir", "a": a}]
        if refresh:
            out += [{"op": "tok", "ans": {"kind": "ok", "exp": 86400}}, {"op": "refresh", "a": a}]
        x = draw(ans_refused(prof))
        if x["kind"] == "status":
            x["status"] = draw(pick(STATUSES))
        out.append({"op": "tok", "ans": x})
    return out


@st.composite
def m_refresh(draw, prof):
    a = draw(acc_i(prof))
    out = [{"op": "refresh", "a": a, "u": draw(chance(0.2))}]
    if draw(chance(0.5)):
        out += [{"op": "refresh", "a": a}] * draw(st.integers(1, 3))
    if draw(chance(0.6)):
        out.append({"op": "tok", "ans": draw(answers(prof))})
    return out


@st.composite
def m_due_refresh(draw, prof):
    """To the next due time, then an answer."""
    out = [{"op": "advdue", "k": draw(st.integers(0, 2)), "off": draw(pick([-1000, 5, 50, 5000]))}]
    if draw(chance(0.8)):
        out.append({"op": "tok", "ans": draw(answers(prof))})
    return out


@st.composite
def m_longrun(draw, prof):
    """Very many consecutive transitory failures."""
    a, one = draw(acc_i(prof)), draw(ans_lost(prof))
    return [{"op": "show", "a": a}, {"op": "redir", "a": a}, {"op": "tok", "ans": {"kind": "ok", "exp": 86400}},
            {"op": "again", "n": draw(pick([65, 129, 258, 258])), "ops": [{"op": "refresh", "a": a}, {"op": "tok", "ans": one}]}]


@st.composite
def m_failrun(draw, prof):
    """Consecutive transitory failures."""
    n = draw(st.integers(*prof.get("failrun", (1, 7))))
    a = draw(acc_i(prof))
    out = []
    one = draw(ans_lost(prof))
    by = draw(pick(["cmd", "due"]))
    for i in range(n):
        if by == "cmd":
            out.append({"op": "refresh", "a": a})
        else:
            out.append({"op": "advdue", "k": 0, "off": 5})
        out.append({"op": "tok", "ans": one if draw(chance(0.8)) else draw(ans_lost(prof))})
    return out


@st.composite
def m_ep(draw, prof):
    e = draw(st.integers(0, prof.get("eps", 4) - 1))
    up = draw(chance(0.4))
    out = [{"op": "ep", "ep": e, "up": up}]
    if not up and draw(chance(0.7)):
        out += [{"op": "adv", "ms": draw(pick([7000, 50000, 100000, 400000]))}]
        if draw(chance(0.7)):
            out += [{"op": "ep", "ep": e, "up": True}]
    return out


@st.composite
def m_supersede(draw, prof):
    """Something in flight, something that supersedes it (or does not), then the answer."""
    a = draw(acc_i(prof))
    out = []
    kind = draw(pick(["ex", "ex", "re", "re", "res"]))
    if kind == "res":
        # a restored token supersedes the exchange under way
        out += [{"op": "show", "a": a}, {"op": "redir", "a": a}, {"op": "tok", "ans": {"kind": "ok"}}, {"op": "dump"}]
        out += [{"op": draw(pick(["revoke", "revoke", "refresh"])), "a": a}]
        if out[-1]["op"] == "refresh":
            out += [{"op": "tok", "ans": {"kind": "oauth"}}]
        out += [{"op": "show", "a": a}, draw(redir_ok(prof, a))] + ([{"op": "restore", "d": 0}] if draw(chance(0.8)) else [])
    elif kind == "ex":
        out += [{"op": "show", "a": a}, draw(redir_ok(prof, a))]
        if draw(chance(0.2)):
            out.append(draw(redir_ok(prof, a)))
    else:
        out += [{"op": "show", "a": a}, {"op": "redir", "a": a}, {"op": "tok", "ans": {"kind": "ok"}}]
        if draw(chance(0.3)):
            out.append({"op": "dump"})
        out += [{"op": "refresh", "a": a}]
    for _ in range(draw(st.integers(0, 3))):
        k = draw(pick(["revoke", "refresh", "reload", "reload", "reload", "aba", "restore", "status", "show", "adv", "other", "complete", "dump", "renotify"]))
        if k in ("revoke", "refresh", "show"):
            out.append({"op": k, "a": a})
        elif k == "reload":
            out.append({"op": "reload", "c": draw(st.integers(0, 3))})
            if draw(chance(0.4)):
                out.append({"op": "show", "a": a})
        elif k == "aba":
            out += [{"op": "reload", "c": draw(st.integers(1, 3))}, {"op": "reload", "c": 0}]
        elif k == "restore":
            out.append({"op": "restore", "d": draw(st.integers(0, 3))})
        elif k in ("status", "dump"):
            out.append({"op": k})
        elif k == "adv":
            out.append({"op": "adv", "ms": draw(pick([500, 4000, 15000, 25000]))})
        elif k == "renotify":
            out.append({"op": "advdue", "k": 0, "off": 5})
        elif k == "other":
            out.append({"op": draw(pick(["show", "refresh", "revoke"])), "a": a + 1})
        elif k == "complete":
            out += [{"op": "refresh", "a": a}, {"op": "redir", "a": a}, {"op": "tok", "k": 1, "ans": {"kind": "ok"}}]
    out.append({"op": "tok", "k": 0, "ans": draw(answers(prof))})
    if draw(chance(0.5)):
        out.append({"op": "tok", "k": 0, "ans": draw(answers(prof))})
    if draw(chance(0.4)):
        out.append({"op": "probe"})
    return out


@st.composite
def m_show(draw, prof):
    return draw(m_begin(prof))[:1] if draw(chance(0.3)) else [{"op": "show", "a": draw(acc_i(prof)), "u": draw(chance(0.25))}]


@st.composite
def m_revoke(draw, prof):
    o = {"op": "revoke", "a": draw(acc_i(prof))}
    if draw(chance(prof.get("forms", 0.2))):
        o["form"] = draw(st.integers(1, 3))
    return [o]


SUBS = ["dump", "info", "refresh", "reload", "restore", "revoke", "server", "show", "shutdown", "status"]
ARGW = ["-u", "-j", "-d", "--", "-", "-x", "--no-url", "-uu", "-uj", "--json", "extra", "", "--config=/nonexistent", "-c", "/nonexistent", "---", "-=", "--=", "\u00e9", "-\u00e9", "help",
        "-U", "--u", "-u=1", "-0", "\n", "x y"]


@st.composite
def m_usage(draw, prof):
    k = draw(pick(["free", "free", "word", "miss", "extra", "extra", "opt", "opt", "none"]))
    acc = {"acc": draw(acc_i(prof))}
    sub = draw(pick(SUBS))
    if k == "none":
        args = []
    elif k == "word":
        args = [draw(pick(["Show", "shows", "sho", "", " ", "-u", "--", "show ", "showtoken", "help", "-x", "--version", "start", "stop", "refresh:", "\u00e9", "-d", "dump:"]))] + \
            draw(st.lists(st.one_of(st.just(acc), pick(ARGW)), max_size=2))
    elif k == "miss":
        args = [draw(pick(["show", "refresh", "revoke"]))] + draw(pick([[], ["-u"], ["--"], ["-u", "--"]]))
    elif k == "extra":
        one = sub in ("show", "refresh", "revoke")
        args = [sub] + ([acc] if one else []) + draw(pick([[acc], ["extra"], [""], ["--", "x"], [acc, acc]]))
        if args[1:2] and isinstance(args[1], dict):
            args.insert(1, "--")
    elif k == "opt":
        args = [sub] + [draw(pick(["-x", "--nope", "-u", "-j", "-d", "-ux", "--json", "--account", "-U", "--url=no", "-\u00e9", "-1", "--quiet"]))] + \
            ([acc] if sub in ("show", "refresh", "revoke") else [])
    else:
        args = [sub] + draw(st.lists(st.one_of(st.just(acc), pick(ARGW)), max_size=4))
    return [{"op": "usage", "args": args}]


@st.composite
def m_outfault(draw, prof):
    return [{"op": "outfault", "cmd": draw(pick(["dump", "show", "show", "status"])), "a": draw(acc_i(prof)), "how": draw(pick(["full", "closed"]))}]


@st.composite
def m_elsewhere(draw, prof):
    return [{"op": "elsewhere", "a": draw(acc_i(prof))}]


@st.composite
def m_together(draw, prof):
    js = draw(st.lists(st.tuples(pick(["show", "show", "status", "info", "dump", "unknown", "refresh"]), acc_i(prof)), min_size=2, max_size=12))
    return [{"op": "together", "jobs": [list(j) for j in js]}]


@st.composite
def m_touch(draw, prof):
    h = 3600000
    return [{"op": "touch", "ms": draw(pick([6 * h + 2500, 6 * h + 60000, 6 * h + 600000, 7 * h, 12 * h + 5000, 5 * h])), "order": draw(st.integers(0, 2))}
            for _ in range(draw(pick([1, 1, 1, 2])))]


@st.composite
def m_tls_token(draw, prof):
    """A token obtained otherwise."""
    return [{"op": "dump"}, {"op": "restore", "d": draw(st.integers(0, 2)), "mut": "craft", "how": "token", "all": True, "x": draw(st.integers(0, 9)), "age": draw(pick([10, 3600])),
                             "left": draw(pick([1000, 95, 100000, 3])), "rt": "CRAFTRT"}]


TLS_MODES = ["self", "self", "chain", "anon", "plain", "alert", "junk", "rst", "fin", "close"]


@st.composite
def m_tls_mode(draw, prof):
    return [{"op": "ep", "ep": draw(st.integers(0, prof.get("eps", 4) - 1)), "tls": draw(pick(TLS_MODES))}]


@st.composite
def m_tls_exchange(draw, prof):
    a = draw(acc_i(prof))
    return [{"op": "revoke", "a": a}, {"op": "show", "a": a}, draw(redir_ok(prof, a)), {"op": "adv", "ms": draw(pick([5000, 70000, 70000, 90000]))}]


@st.composite
def m_look(draw, prof):
    return [{"op": draw(pick(["status", "status", "info", "dump", "probe"]))}]


@st.composite
def m_unknown(draw, prof):
    o = {"op": "unknown", "cmd": draw(pick(["show", "refresh", "revoke"]))}
    if draw(chance(0.4)):
        o["name"] = draw(pick(["nope", "x2", "X ", "", "x:", "-d", "withurl x"]))
    else:
        o.update(a=draw(acc_i(prof)), mut=draw(pick(["pre ", "post ", "trim", "upper", "lower", "short", "long", "nl", "tail", "quote", "nfd"])))
    return [o]


@st.composite
def m_retime(draw, prof):
    """A token with a long life, then another schedule."""
    a = draw(acc_i(prof))
    out = [{"op": "show", "a": a}, {"op": "redir", "a": a}, {"op": "tok", "ans": {"kind": "ok", "exp": draw(pick([3600, 3600, 3599, 7200, 86400]))}}]
    if draw(chance(0.5)):
        # as it is after a failure
        out += [{"op": "refresh", "a": a}, {"op": "tok", "ans": draw(ans_lost(prof))}]
    if draw(chance(0.7)):
        out.append({"op": "adv", "ms": draw(pick([1500, 8000, 30000, 100000, 600000, 2000000]))})
    out.append({"op": "reload", "c": draw(st.integers(0, prof.get("variants", (0, 1))[1]))})
    for _ in range(draw(st.integers(0, 2))):
        out.append({"op": "advdue", "k": 0, "off": draw(pick([5, 5, -1000, 5000]))})
        if draw(chance(0.8)):
            out.append({"op": "tok", "ans": draw(answers(prof))})
    return out


@st.composite
def m_redir_bad(draw, prof):
    a = draw(acc_i(prof))
    out = []
    if draw(chance(prof.get("bad_begin", 0.6))):
        out.append({"op": draw(pick(["show", "refresh"])), "a": a})
    return out + [draw(redir_bad(prof, a))]


@st.composite
def m_redir_err(draw, prof):
    a = draw(acc_i(prof))
    if prof.get("edge") and draw(chance(0.15)):
        return [{"op": "show", "a": a}, {"op": "redir", "a": a, "error": "", "code": draw(chance(0.5)), "rev": draw(chance(0.5))}]
    return [{"op": "show", "a": a}, {"op": "redir", "a": a, "error": draw(pick(["access_denied", "server error \u00e9 \"x\"", "e"])), "code": draw(chance(0.3)),
                                     "rev": draw(chance(0.5))}]


@st.composite
def m_redir_ok(draw, prof):
    return [draw(redir_ok(prof, draw(acc_i(prof))))]


@st.composite
def m_adv(draw, prof):
    return [{"op": "adv", "ms": draw(pick(prof.get("advs", [10, 900, 5000, 12000, 41000, 95000, 600000, 910000, 3700000, 5500000, 90000000])))}]


@st.composite
def m_advdue(draw, prof):
    return [{"op": "advdue", "k": draw(st.integers(0, 3)), "off": draw(pick([-2000, -60, 5, 100, 40000]))}]


@st.composite
def m_suspend(draw, prof):
    return [{"op": "suspend", "ms": draw(pick([1000, 30000, 100000, 1000000, 3600000, 5400000, 86400000, 10 ** 9])),
             "shows": draw(st.lists(acc_i(prof), max_size=2))}]


@st.composite
def m_settime(draw, prof):
    out = [{"op": "settime", "abs": draw(pick([10, 1000, 10 ** 6, 4102444800]))} if draw(chance(0.15)) else {"op": "settime", "s": draw(pick([1, -1, 30, -30, 90, -90, 3600, -3600, 86400, -86400, 10 ** 7, -10 ** 7, 10 ** 9]))}]
    if draw(chance(0.4)):
        out.append({"op": "adv", "ms": draw(pick([100, 1000, 10000, 60000]))})
    return out + draw(weighted({"look": 4, "show": 3, "advdue": 4, "dump_restore": 2, "restore": 2, "refresh": 1, "begin": 1}).flatmap(lambda k: MACROS[k](prof)))


@st.composite
def m_reload(draw, prof):
    return [{"op": "reload", "c": draw(st.integers(0, prof.get("variants", (0, 1))[1]))}]


@st.composite
def m_aba(draw, prof):
    v = draw(st.integers(1, max(1, prof.get("variants", (0, 1))[1])))
    out = [{"op": "reload", "c": v}]
    if draw(chance(0.3)):
        out += [{"op": draw(pick(["show", "refresh", "revoke"])), "a": draw(acc_i(prof))}]
    return out + [{"op": "reload", "c": 0}]


BAD_TEXT = ["", "@CUR@ account \"q\" {", "@CUR@ account \"q\" { }", "@CUR@ x = 1;", "@CUR@ http_listen = \"0.0.0.0:0\"; http_listen = none;",
            "account \"x\" { auth_uri = \"ftp://x/\"; client_id = \"c\"; token_uri = \"http://y/\"; }", "@CUR@ refresh_retry = 99999999999999999999s;",
            "@CUR@ auth_error_cmd = \"z\";", "@CUR@ \"", "@CUR@ token_event_cmd = \"a\"; token_event_cmd = \"b\";",
            "http_listen = none; https_listen = none; @CUR@", "token_event_cmd = \"EVIL\";", "@CUR@ \u00e9"]


@st.composite
def m_bad_reload(draw, prof):
    k = draw(pick(["text"] * 6 + ["missing", "dir", "nonutf8"]))
    if k != "text":
        return [{"op": "reload", "bad": k}]
    return [{"op": "reload", "bad": "text", "text": draw(pick(BAD_TEXT))}]


def m_dump(prof):
    return st.just([{"op": "dump"}])


@st.composite
def m_restore(draw, prof):
    o = {"op": "restore", "d": draw(st.integers(0, 3))}
    k = draw(weighted(prof.get("restores", {"plain": 4, "mut": 2, "craft": 2})))
    if k == "mut":
        o["mut"] = draw(pick(["empty", "garbage", "flip", "trunc", "extend", "plain", "version", "badplain"]))
        o["x"] = draw(st.integers(0, 100000))
    elif k == "craft":
        o["mut"] = "craft"
        o["how"] = draw(pick(["token", "token", "field", "fields", "empty", "rename"]))
        o["x"] = draw(st.integers(0, 30))
        if o["how"] == "token":
            o["age"] = draw(pick([0, 10, 3600, 86400]))
            o["left"] = draw(pick([1000, 50, 100000, -10, 3]))
            o["all"] = draw(chance(0.3))
            if draw(chance(0.7)):
                o["rt"] = "CRAFTRT"
    return [o]


@st.composite
def m_dump_restore(draw, prof):
    a = draw(acc_i(prof))
    out = [{"op": "dump"}]
    for _ in range(draw(st.integers(0, 2))):
        k = draw(pick(["revoke", "refresh", "reload", "restart", "adv", "show", "exchange"]))
        if k in ("revoke", "refresh", "show"):
            out.append({"op": k, "a": draw(acc_i(prof))})
        elif k == "reload":
            out.append({"op": "reload", "c": draw(st.integers(0, prof.get("variants", (0, 1))[1]))})
        elif k == "restart":
            out.append({"op": "restart", "how": draw(pick(["kill", "shutdown"])), "c": draw(st.integers(0, prof.get("variants", (0, 1))[1]))})
        elif k == "exchange":
            out += [{"op": "revoke", "a": a}, {"op": "show", "a": a}, {"op": "redir", "a": a}]
        else:
            out.append({"op": "adv", "ms": draw(pick([5000, 4000000, 100000]))})
    return out + draw(m_restore(prof))


@st.composite
def m_mode(draw, prof):
    k = draw(pick(KINDS))
    m = draw(pick({"notify": ["auto", "hold", "fail", "sig", "loud"], "error": ["auto", "hold", "fail", "loud"], "event": ["auto", "hold", "fail", "sig"],
                   "transient": ["auto", "hold", "hold", "fail", "sig"]}[k]))
    return [{"op": "mode", "kind": k, "mode": m}]


@st.composite
def m_cmd(draw, prof):
    o = {"op": "cmd", "k": draw(st.integers(0, 2)), "code": draw(pick([0, 0, 1, 77, 255]))}
    if draw(chance(0.5)):
        o["kind"] = draw(pick(["event", "transient", "notify"]))
    return [o]


@st.composite
def m_transient(draw, prof):
    """Six failures, and what happens around the verdict."""
    a = draw(acc_i(prof))
    out = [{"op": "mode", "kind": "transient", "mode": draw(pick(["hold", "hold", "hold", "auto", "fail", "sig"]))}]
    if draw(chance(0.7)):
        out += [{"op": "show", "a": a}, {"op": "redir", "a": a}, {"op": "tok", "ans": {"kind": "ok", "exp": 86400}}]
    lost = draw(ans_lost(prof))
    succ = draw(pick([None, None, None, 3]))
    n = draw(pick([5, 6, 6, 6, 6, 6, 7, 12]))
    for i in range(n):
        out += [{"op": "refresh", "a": a} if draw(chance(0.8)) else {"op": "advdue", "k": 0, "off": 5},
                {"op": "tok", "ans": {"kind": "ok", "exp": 86400} if succ == i else lost}]
    for _ in range(draw(st.integers(0, 2))):
        k = draw(pick(["revoke", "reload", "aba", "adv", "refresh", "reauth", "restore", "show", "status"]))
        if k in ("revoke", "refresh", "show"):
            out.append({"op": k, "a": a})
        elif k == "reload":
            out.append({"op": "reload", "c": draw(st.integers(0, 3))})
        elif k == "aba":
            out += [{"op": "reload", "c": 1}, {"op": "reload", "c": 0}]
        elif k == "adv":
            out.append({"op": "adv", "ms": draw(pick([1000, 100000, 179000, 181000]))})
        elif k == "reauth":
            out += [{"op": "revoke", "a": a}, {"op": "show", "a": a}, {"op": "redir", "a": a}, {"op": "tok", "ans": {"kind": "ok", "exp": 86400}}]
        elif k == "restore":
            out += [{"op": "dump"}, {"op": "revoke", "a": a}, {"op": "restore", "d": draw(st.integers(0, 3))}]
        else:
            out.append({"op": "status"})
    out.append({"op": "cmd", "kind": "transient", "code": draw(pick([0, 0, 1, 1, 255]))} if draw(chance(0.8)) else {"op": "adv", "ms": 185000})
    return out


@st.composite
def m_events(draw, prof):
    """Changes while an event command is running."""
    out = [{"op": "mode", "kind": "event", "mode": "hold"}]
    for _ in range(draw(st.integers(1, 5))):
        a = draw(acc_i(prof))
        k = draw(pick(["revoke", "revoke", "auth", "refresh", "reload", "cmd", "adv"]))
        if k == "revoke":
            out.append({"op": "revoke", "a": a})
        elif k == "auth":
            out += [{"op": "show", "a": a}, {"op": "redir", "a": a}, {"op": "tok", "ans": draw(ans_ok(prof))}]
        elif k == "refresh":
            out += [{"op": "refresh", "a": a}, {"op": "tok", "ans": draw(answers(prof))}]
        elif k == "reload":
            out.append({"op": "reload", "c": draw(st.integers(0, 3))})
        elif k == "cmd":
            out.append({"op": "cmd", "kind": "event", "code": draw(pick([0, 1, 255]))})
        else:
            out.append({"op": "adv", "ms": draw(pick([1000, 9000, 32000]))})
    for _ in range(draw(st.integers(0, 4))):
        out.append({"op": "cmd", "kind": "event", "code": draw(pick([0, 1, 255]))})
    if draw(chance(0.5)):
        out.append({"op": "mode", "kind": "event", "mode": draw(pick(["auto", "fail"]))})
    return out


@st.composite
def m_burst(draw, prof):
    """More of the same than one is prepared for."""
    n = draw(pick([9, 18, 34, 66, 130]))
    a = draw(acc_i(prof))
    k = draw(pick(["event", "event", "event", "notify", "error", "conn", "cmd"]))
    if k == "event":
        out = [{"op": "mode", "kind": "event", "mode": "hold"}, {"op": "again", "n": n, "ops": [{"op": "revoke", "a": a}]}]
        if draw(chance(0.5)):
            out += [{"op": "show", "a": a}, {"op": "redir", "a": a}, {"op": "tok", "ans": draw(ans_ok(prof))}]
        return out + [{"op": "mode", "kind": "event", "mode": "auto"}, {"op": "cmd", "kind": "event", "code": 0}]
    if k == "notify":
        return [{"op": "mode", "kind": "notify", "mode": "hold"}, {"op": "again", "n": min(n, 34), "ops": [{"op": "refresh", "a": a}, {"op": "revoke", "a": a}, {"op": "show", "a": a}]}]
    if k == "error":
        return [{"op": "mode", "kind": "error", "mode": "hold"}, {"op": "again", "n": min(n, 34), "ops": [{"op": "show", "a": a}, {"op": "redir", "a": a, "error": "access_denied"}]}]
    if k == "conn":
        return [{"op": "show", "a": a}, {"op": "again", "n": n, "ops": [{"op": "junk", "chunks": [{"d": draw(pick(["", "GET", "GET / HTTP/1.1\r\nHost: x\r\n"]))}],
                                                                         "end": draw(pick(["close", "half", "linger", "linger"]))}]}, {"op": "redir", "a": a}]
    return [{"op": "again", "n": n, "ops": [{"op": draw(pick(["status", "show", "info", "dump"])), "a": a}]}]


@st.composite
def m_swarm(draw, prof):
    """All accounts at once wait for their peers; some are answered."""
    N = range(prof.get("accounts", (1, 3))[1])
    what = draw(pick(["exchange", "refresh", "refresh", "due", "pending"]))
    out = []
    if what == "pending":
        out = ([{"op": "mode", "kind": "notify", "mode": "hold"}] if draw(chance(0.6)) else []) + [{"op": "show", "a": a} for a in N]
        return out + draw(pick([[], [{"op": "advdue", "k": 0, "off": 5}], [{"op": "status"}]]))
    ok = draw(ans_ok(prof))
    for a in N:
        out += [{"op": "show", "a": a}, {"op": "redir", "a": a}] + ([] if what == "exchange" else [{"op": "tok", "ans": ok}])
    if what == "due":
        out += [{"op": "advdue", "k": 0, "off": 5000}]
    elif what == "refresh":
        out += [{"op": "refresh", "a": a} for a in N]
    for _ in range(draw(st.integers(0, 6))):
        out.append({"op": "tok", "k": draw(st.integers(0, 15)), "ans": draw(answers(prof))})
    return out + draw(pick([[], [{"op": "status"}], [{"op": "adv", "ms": 7000}], [{"op": "adv", "ms": 100000}]]))


@st.composite
def m_restart(draw, prof):
    o = {"op": "restart", "how": draw(pick(["kill", "kill", "shutdown", "term"]))}
    if draw(chance(0.3)):
        o["norun"] = True
    if draw(chance(0.2)):
        o["c"] = draw(st.integers(0, prof.get("variants", (0, 1))[1]))
    return [o]


@st.composite
def m_server2(draw, prof):
    out = []
    for _ in range(draw(st.integers(1, 2))):
        o = {"op": "server2"}
        if draw(chance(0.35)):
            o["stall"] = draw(pick(["", "status", "show", "\xff"]))
        if draw(chance(0.3)):
            o["daemon"] = True
        out.append(o)
    return out


@st.composite
def m_preempt(draw, prof):
    """Several things at once, while one thread is kept waiting at some point of its work."""
    a = draw(acc_i(prof))
    kind = draw(pick(prof.get("at_once") or ["redirect", "redirect", "exchange", "exchange", "exchange2", "refresh", "refresh", "token", "any", "due", "due", "restore"]))
    out = []
    show, tok = {"op": "show", "a": a}, {"op": "tok", "ans": {"kind": "ok", "exp": draw(pick([600, 3600, 100000]))}}
    redir, revoke = {"op": "redir", "a": a}, {"op": "revoke", "a": a}
    active = kind in ("refresh", "token", "restore", "restore2") or kind == "due" and draw(chance(0.6))
    both = kind.split("+") if "+" in kind else None
    if kind != "any":
        if draw(chance(0.5)):
            out.append(revoke)
        out.append(show)
    if kind in ("exchange", "exchange2") or active or both:
        out.append(redir)
    if kind == "exchange2":
        out.append(redir)
    if active:
        out.append(tok)
    if kind == "refresh":
        out.append({"op": "refresh", "a": a})
    if kind == "restore":
        out += [{"op": "dump"}, revoke] + draw(pick([[], [show], [show, redir], [show, redir]]))
    if kind == "restore2":
        out += [{"op": "dump"}, revoke, show, redir]

    def action(k):
        b = a if draw(chance(0.85)) or k == "due" else draw(acc_i(prof))
        if k == "tok":
            return {"k": k, "a": b, "n": draw(st.integers(0, 1)), "ans": draw(answers(prof)) if draw(chance(0.3)) else draw(ans_ok(prof))}
        if k == "redir":
            return {"k": k, "a": b, "error": draw(chance(0.2)), "early": draw(chance(0.5))}
        if k == "reload":
            return {"k": k, "c": draw(st.integers(0, 5))}
        if k == "dump":
            return {"k": k}
        if k == "restore":
            return {"k": k, "d": draw(pick([-1, -1, 0, 1]))}
        return {"k": k, "a": b}

    first = {"redirect": ["redir", "redir", "show", "refresh"], "exchange": ["tok", "tok", "tok", "redir", "revoke", "refresh", "status"], "exchange2": ["tok"],
             "refresh": ["tok", "tok", "tok", "refresh", "revoke", "status"], "token": ["refresh", "refresh", "revoke", "show", "reload", "dump"],
             "any": ["show", "refresh", "revoke", "reload", "dump"], "due": ["due"], "restore": ["restore", "restore", "tok", "dump", "revoke"], "restore2": ["restore"]}.get(kind, both)
    rest = {"redirect": ["redir", "redir", "show", "revoke", "revoke", "refresh", "reload", "status"],
            "exchange": ["redir", "revoke", "revoke", "show", "refresh", "reload", "status", "tok", "tok", "dump"],
            "exchange2": ["tok", "tok", "revoke", "redir", "show"], "refresh": ["revoke", "revoke", "show", "refresh", "refresh", "reload", "reload", "status", "tok", "dump"],
            "token": ["refresh", "refresh", "revoke", "revoke", "show", "reload", "reload", "status"], "any": ["show", "show", "refresh", "revoke", "status", "reload"],
            "due": ["revoke", "revoke", "refresh", "show", "show", "reload", "reload", "status"], "restore": ["tok", "tok", "redir", "restore", "show", "revoke", "status", "reload", "reload"], "restore2": ["tok"]}.get(kind, ["status", "show"])
    ks = [draw(pick(first))] + [draw(pick(rest)) for _ in range(draw(pick([1, 1, 2, 2, 3])))]
    if kind == "restore2":
        ks = ["restore", "tok"] + draw(pick([[], ["status"], ["show"]]))
    if both:
        ks = both + ks[1:draw(pick([1, 1, 2]))]
    # one reload at a time, as they all read the same file
    ks = [k for i, k in enumerate(ks) if k != "reload" or "reload" not in ks[:i]]
    if draw(chance(0.8 if both else 0.5)):
        # the same again, with each of the first attempts to take a lock
        acts, pre = [action(k) for k in ks], out
        return [x for at in range(1, draw(pick([4, 5, 6, 8, 10]))) for x in (pre if at == 1 else [revoke] + pre)
                + [{"op": "preempt", "locks": True, "at": at, "acts": acts}]]
    for _ in range(draw(pick([1, 1, 2]))):
        if draw(chance(0.7)):
            where = {"locks": True, "at": draw(st.one_of(st.integers(1, 4), st.integers(1, 16)))}
        else:
            where = {"at": draw(st.one_of(st.integers(1, 30), st.integers(1, 150), st.integers(1, 500)))}
        out.append({"op": "preempt", **where, "acts": [action(k) for k in ks]})
    return out


@st.composite
def m_proxy(draw, prof):
    """A client whose connection to the server is not what it should be."""
    how = draw(pick(["frag", "frag", "lost", "slam"]))
    if how == "frag":
        k = draw(pick(["show", "show", "refresh", "revoke", "status", "dump", "restore", "reload"]))
        return [{"op": "proxy", "how": how, "x": {"k": k, "a": draw(acc_i(prof)), "c": draw(st.integers(0, 3)), "d": draw(pick([-1, 0, 1]))},
                 "cuts": draw(st.lists(st.one_of(st.integers(0, 30), st.integers(0, 100000)), max_size=4))}]
    args = draw(pick([["show"], ["show", "-u"], ["refresh"], ["refresh", "-u"], ["revoke"], ["status"], ["info"], ["info", "-j"], ["dump"], ["dump"], ["dump"], ["restore"], ["reload"]]))
    o = {"op": "proxy", "how": how, "args": args}
    if args[0] in ("show", "refresh", "revoke"):
        o["a"] = draw(acc_i(prof))
    if args[0] == "restore":
        o["len"] = draw(pick([0, 20, 5000, 400000]))
    return [o]


@st.composite
def m_leak(draw, prof):
    """The same work again and again."""
    cyc = []
    for _ in range(draw(pick([1, 1, 2, 3]))):
        cyc += draw(weighted(prof["rounds"]).flatmap(lambda k: MACROS[k](prof)))
    cyc = [o for o in cyc if o["op"] not in ("mode", "restart", "server2", "settime", "mark", "leak")][:14]
    n = draw(pick([6, 8, 10]))
    mode = draw(pick([None, None, "hold"]))
    return ([{"op": "mode", "kind": draw(pick(["notify", "error", "event"])), "mode": mode}] if mode else []) + cyc + [{"op": "mark"}] + cyc * n + [{"op": "leak", "n": n}]


@st.composite
def m_crowd(draw, prof):
    """Clients that queue up behind another one, some of which leave."""
    o = {"op": "crowd", "jobs": [[draw(pick(["show", "show", "refresh", "refresh", "revoke", "status", "info", "dump"])), draw(acc_i(prof)), draw(chance(0.4))]
                                 for _ in range(draw(st.integers(1, 5)))]}
    if draw(chance(0.85)):
        o["block"] = draw(pick(["", "status", "revok", "x"]))
    if draw(chance(0.3)):
        o["late"] = True
    return [o]


@st.composite
def m_linger(draw, prof):
    """Connections that say little or nothing, and stay; then a redirect."""
    out = []
    l = draw(pick(["http", "https"]))
    for _ in range(draw(pick([1, 1, 2, 5]))):
        ch = [{"d": draw(pick(["\x16", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", "GET /", "GET / HTTP/1.1\r\n", "G"]))}] if draw(chance(0.5)) else []
        out.append({"op": "junk", "listener": l, "chunks": ch, "end": "linger"})
    a = draw(acc_i(prof))
    if draw(chance(0.8)):
        out += [{"op": "show", "a": a}, draw(redir_ok(prof, a)), {"op": "tok", "ans": draw(ans_ok(prof))}]
    return out


RAW_WORDS = ["dump", "info", "reload", "refresh", "restore", "revoke", "showtoken", "shutdown", "status", "", "Status", "show", "withurl", "withouturl", " ", ":", "x", "y",
             "\x00", "\xff", "\n", "A" * 100000, "ok:", "\xc3\xa9", "x ", "nope"]


@st.composite
def m_rawsock(draw, prof):
    parts = draw(st.lists(pick(RAW_WORDS), max_size=5))
    if draw(chance(0.5)):
        c = draw(pick(RAW_WORDS[:9]))
        data = c + ":" + "".join(parts)
    else:
        data = "".join(parts)
    return [{"op": "rawsock", "data": data, "shut": draw(chance(0.8)), "read": draw(chance(0.8))}]


REQ_BITS = ["GET / HTTP/1.1\r\n", "GET /?state=AAAAAAAAAAA&code=x HTTP/1.1\r\n", "Host: localhost:@PORT@\r\n", "host:localhost:@PORT@\r\n", "Host: \r\n", "Host\r\n", "\r\n",
            "POST / HTTP/1.1\r\n", "GET\r\n", "GET / \r\n", "GET  /  HTTP/1.1\r\n", " folded\r\n", "X: y\r\n", "GET http://evil/ HTTP/1.1\r\n", "GET * HTTP/1.1\r\n", "\xff\xfe\x00", "\n",
            "\r", "GET /favicon.ico HTTP/1.1\r\n", "Host: [::1\r\n", "Host: a b\r\n", "Content-Length: 5\r\n\r\nhello", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", "GET /\xe9 HTTP/1.1\r\n",
            "GET ?state HTTP/1.1\r\n", "Host: user:pw@localhost:@PORT@\r\n", "\t\r\n", "Host: \xc3\xa9\r\n", ":\r\n", "Host: localhost:99999\r\n", "GET @evil/?state=x HTTP/1.1\r\n"]


@st.composite
def m_junk(draw, prof):
    chunks = []
    for b in draw(st.lists(pick(REQ_BITS), max_size=6)):
        ch = {"d": b}
        if draw(chance(0.15)):
            ch["n"] = draw(pick([3, 200, 3000]))
        if draw(chance(0.4)):
            ch["settle"] = True
        chunks.append(ch)
    if draw(chance(0.1)):
        chunks.append({"d": draw(st.text(alphabet=st.characters(max_codepoint=255), max_size=40))})
    o = {"op": "junk", "chunks": chunks, "end": draw(pick(["half", "half", "close", "abort", "linger"]))}
    if draw(chance(prof.get("tls_junk", 0.2))):
        o["listener"] = "https"
    return [o]


@st.composite
def m_flood(draw, prof):
    head = draw(pick(["GET /?a=", "GET / HTTP/1.1\r\nX: ", "", "GET / HTTP/1.1\r\nHost: localhost\r\n A"]))
    return [{"op": "flood", "kib": draw(pick([20, 64, 512, 8192])), "head": head, "fill": draw(pick(["A", "A\r\n", "X: y\r\n", " z\r\n", "\x00"])), "finish": draw(chance(0.7))}]


# ---------- configuration texts ----------

VOCAB = ["account", "none", "auth_uri", "auth_uri_fields", "client_id", "client_secret", "login_hint", "redirect_uri", "scopes", "token_uri", "http_listen", "https_listen",
         "auth_notify_cmd", "auth_notify_interval", "error_notify_cmd", "token_event_cmd", "transient_error_if_cmd", "refresh_retry", "refresh_at_least",
         "refresh_before_expiry", "auth_error_cmd", "=", ";", "{", "}", "[", "]", ",", ":", "\"\"", "\"x\"", "\"http://localhost/\"", "10m", "7", "45s", "none;", "#", "\u00e9",
         "\\", "'x'", "yes", "-1s", "\"a\\q\"", "\"a\\n\"", "\"open", "/", "/* c */", "// x\n", "\x0c", "\xa0", ".", "@", "x = \"y\";", "*"]
BADSTR = ["\"a\\q\"", "\"a\\n\"", "\"\\", "\"open", "\"a\"b\"", "'a'", "a", "\"\\\\\\\"\"", "\"\\\\\"", "\"\\u0041\"", "\"\"", "\"a\\\nb\"", "7", "7s", "none", "[\"a\"]", "{\"a\": \"b\"}",
          "\"a\" \"b\"", "true", "\"a\\\\n\""]
BADURI = ["", "/", "localhost", "ftp://x/", "file:///etc", "mailto:a@b", "javascript:x", "http:", "http://", "https://", "//x/", "http:// x/", "urn:x:y", "ws://x/", "httpss://x/", "htt p://x/", "http://x:99999/",
          "http://x:65536/", "http://x:port/", "data:,x", "unix:/x", "://x", "x", "1http://x/", "\u00e9://x/", "http://a b/", "gopher://localhost/"]
GOODURI = ["http://x/", "HTTP://x/", "https://x", "http://x:65535/", "http://x:80/", "https://x:443/y?z=1#f", "http://x/%20", "Https://LOCALHOST/"]
TIMEV = ["1s", "59m", "24h", "3d", "007s", "0001m", "18446744073709551615s", "18446744073709551616s", "307445734561825860m", "307445734561825861m", "5124095576030431h",
         "5124095576030432h", "213503982334601d", "213503982334602d", "99999999999999999999s", "10", "10w", "10 s", "s", "1.5h", "-1s", "+1s", "1S", "1ms", "1h30m", "\"1h\"", "1e3s",
         "1_000s", "0x10s", "none", "0s", "1y", "1D", "1sec"]


@st.composite
def boundary_time(draw):
    """Around the largest number of seconds there can be, and the powers of two in between."""
    u, m = draw(pick([("s", 1), ("m", 60), ("h", 3600), ("d", 86400)]))
    b = draw(pick([2 ** 64, 2 ** 64, 2 ** 64, 2 ** 63, 2 ** 32, 2 ** 53]))
    return "%d%s" % (b // m * draw(pick([1, 1, 1, 1, 2, 10])) + draw(pick([-1, 0, 1, 1, 2])), u)


@st.composite
def text_op(draw, prof):
    """A configuration text, valid or with a fault or two, in an arbitrary layout."""
    import random
    c = draw(base_conf(dict(prof, weird=0.3, accounts=(1, 2), own_listen=0.0, no_https=1.0 if prof.get("no_https") == 1.0 else 0.6, huge=0.1)))
    rng = random.Random(draw(st.integers(0, 10 ** 9)))
    for a in c["accounts"]:
        a["token_uri"] = "http://@EP%d@%s" % (a["token_uri"]["ep"], a["token_uri"]["path"])
    for l in ("http_listen", "https_listen"):
        if c.get(l) is None and draw(chance(0.08)):
            c[l] = draw(pick(["127.0.0.1:0", "localhost:0"]))
    toks = C.render_tokens(c, rng)
    what = []
    kind = draw(pick(["valid", "valid", "token", "token", "stmt", "stmt", "value", "value", "value", "time", "time", "word", "byte", "byte", "listen", "garbage"]))
    n = draw(pick([1, 1, 1, 2, 3])) if kind != "valid" else 0
    for _ in range(n):
        i = draw(st.integers(0, max(0, len(toks) - 1)))
        if kind == "token" and toks:
            how = draw(pick(["del", "dup", "swap", "put", "insert"]))
            if how == "del":
                toks.pop(i)
            elif how == "dup":
                toks.insert(i, toks[i])
            elif how == "swap":
                j = (i + 1) % len(toks)
                toks[i], toks[j] = toks[j], toks[i]
            else:
                toks[i:i + (how == "put")] = [draw(pick(VOCAB))]
        elif kind == "stmt":
            starts = [k for k in range(len(toks) - 1) if toks[k + 1] == "="]
            if not starts:
                continue
            a = starts[i % len(starts)]
            b = a + 1 + toks[a:].index(";") if ";" in toks[a:] else len(toks)
            stm = toks[a:b]
            how = draw(pick(["drop", "drop", "twice", "twice", "move", "move", "other", "empty"]))
            if how == "drop":
                del toks[a:b]
            elif how == "twice":
                if draw(chance(0.5)):
                    stm = stm[:2] + ({"{": ["{", "}"], "[": ["[", "]"]}.get(stm[2]) or stm[2:-1]) + [";"]
                # again, anywhere in the same block
                ends = [k for k in starts]
                at = ends[draw(st.integers(0, len(ends) - 1))]
                toks[at:at] = stm
            elif how == "move":
                del toks[a:b]
                at = draw(pick(["end", "start", "in"]))
                k = {"end": len(toks), "start": 0, "in": toks.index("{") + 1 if "{" in toks else 0}[at]
                toks[k:k] = stm
            elif how == "other":
                toks[a:a] = [draw(pick(VOCAB[:21])), "=", draw(pick(["\"v\"", "\"\"", "10m", "none", "[]", "{}", "[\"a\"]", "{\"k\": \"v\"}", "\"http://localhost/\""])), ";"]
            else:
                del toks[a + 2:b - 1]
        elif kind == "value":
            vals = [k for k in range(len(toks)) if k and toks[k - 1] == "="]
            if not vals:
                continue
            v = vals[i % len(vals)]
            opt = toks[v - 2] if v >= 2 else ""
            if opt in C.TIMES:
                toks[v] = draw(pick(TIMEV)) if draw(chance(0.5)) else draw(boundary_time())
            elif opt.endswith("_uri"):
                toks[v] = C.q(draw(pick(BADURI + GOODURI))) if opt != "token_uri" or draw(chance(0.8)) else draw(pick(BADSTR))
            elif toks[v] in "{[":
                e = v + toks[v:].index({"{": "}", "[": "]"}[toks[v]])
                toks[v:e + 1] = draw(pick([["[", "]"], ["{", "}"], ["[", ",", "]"], ["[", "\"a\"", ",", "]"], ["[", ",", "\"a\"", "]"], ["{", ",", "\"a\"", ":", "\"b\"", "}"], ["[", "\"a\"", "\"b\"", "]"],
                                             ["{", "\"a\"", "}"], ["{", "\"a\"", ":", "}"], ["{", "\"a\"", ",", "\"b\"", "}"], ["{", "\"a\"", ":", "\"b\"", ",", "}"], ["\"a\""], ["[", "\"a\"", ":", "\"b\"", "]"],
                                             ["{", "\"login_hint\"", ":", "\"h\"", "}"], ["[", "\"a\"", ",", ",", "\"b\"", "]"], ["[", "10m", "]"], ["[", "\"dup\"", ",", "\"dup\"", "]"],
                                             ["{", "\"a\"", "=", "\"b\"", "}"], ["[", "[", "]", "]"], ["[", "\"\"", "]"], ["{", "\"\"", ":", "\"\"", "}"]]))
            else:
                toks[v] = draw(pick(BADSTR))
        elif kind == "time":
            # an option with a time, where there is none yet, or in its place
            opts = [k for k in ("refresh_retry", "refresh_at_least", "refresh_before_expiry", "auth_notify_interval")]
            opt = draw(pick(opts))
            if opt in toks:
                v = toks.index(opt) + 2
                toks[v:v + 1] = [draw(boundary_time())] if draw(chance(0.6)) else [draw(pick(TIMEV))]
            else:
                at = toks.index("{") + 1 if opt != "auth_notify_interval" and "{" in toks and draw(chance(0.5)) and toks[toks.index("{") - 2] == "account" else 0
                toks[at:at] = [opt, "=", draw(boundary_time()) if draw(chance(0.6)) else draw(pick(TIMEV)), ";"]
        elif kind == "word":
            ws = [k for k in range(len(toks)) if toks[k][:1].isalpha()]
            if not ws:
                continue
            w = ws[i % len(ws)]
            t = toks[w]
            toks[w] = draw(pick([t.upper(), t[:-1], t + "s", t + "_", t.replace("_", "-"), t.capitalize(), t[1:], t + t, "\"" + t + "\"", t.replace("_", " "), "_" + t, t + "1", "x" + t]))
        elif kind == "listen":
            toks = [t for t in toks]
            toks += draw(pick([["http_listen", "=", "none", ";"], ["https_listen", "=", "none", ";"], ["http_listen", "=", "none", ";", "https_listen", "=", "none", ";"],
                               ["http_listen", "=", "\"127.0.0.1:0\"", ";"], ["https_listen", "=", "\"localhost:0\"", ";"], ["http_listen", "=", "none", ";", "http_listen", "=", "none", ";"],
                               ["http_listen", "=", "none", ";", "http_listen", "=", "\"127.0.0.1:0\"", ";"], ["https_listen", "=", "\"127.0.0.1:0\"", ";", "https_listen", "=", "none", ";"]]))
    text = C.layout(toks, rng)
    if kind == "byte":
        for _ in range(n):
            i = draw(st.integers(0, len(text)))
            how = draw(pick(["del", "ins", "put", "cut", "dup"]))
            ch = draw(st.one_of(pick("\"\\{}[]=;:,/ \n0s1mhd"), st.characters(codec="utf-8", exclude_characters="\0\r")))
            if how == "del":
                text = text[:i] + text[i + 1:]
            elif how == "ins":
                text = text[:i] + ch + text[i:]
            elif how == "put":
                text = text[:i] + ch + text[i + 1:]
            elif how == "cut":
                text = text[:i]
            else:
                j = draw(st.integers(0, 60))
                text = text[:i] + text[max(0, i - j):i] + text[i:]
    elif kind == "garbage":
        k = draw(pick(["", "words", "chars", "long", "deep", "comment"]))
        if k == "words":
            text = " ".join(draw(st.lists(pick(VOCAB), max_size=12)))
        elif k == "chars":
            text = draw(st.text(st.characters(codec="utf-8", exclude_characters="\0\r"), max_size=60))
        elif k == "long":
            text += draw(pick(["account ", "\"" + "x" * 200000, "=" * 30000, "client_id = \"a\"; " * 3000, "\"\\\\" * 50001, "9" * 100000 + "s", "//" + "y" * 300000]))
        elif k == "deep":
            text += draw(pick(["{" * 20000, "[" * 20000, "account \"a\" {" * 5000]))
        elif k == "comment":
            text = draw(pick(["# c\n", "/* c */", "-- c\n", "; c\n", "//", "// c"])) + text
        else:
            text = draw(pick(["", " ", "\n", "// only a comment", ";", "account", "\ufeff" + text]))
    o = {"op": "text", "text": text}
    how = draw(pick(["reload"] * 8 + ["start", "daemon"]))
    if how != "reload":
        o["how"] = how
    return o


@st.composite
def m_text(draw, prof):
    out = [draw(text_op(prof))]
    for _ in range(draw(pick([0, 0, 1, 1, 2]))):
        out += draw(weighted({"auth": 5, "begin": 2, "due_refresh": 3, "advdue": 2, "redir_err": 1, "failrun": 1, "revoke": 1, "dump_restore": 1, "look": 1}).flatmap(lambda k: MACROS[k](prof)))
    return out


MACROS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("m_")}


@st.composite
def scenario(draw, prof):
    if prof.get("swarm") and draw(chance(prof["swarm"])):
        n = draw(pick([6, 9, 17]))
        prof = dict(prof, accounts=(n, n), variants=(0, 1), len=(0, 3), prefix=["swarm"], ops=dict(prof["ops"], swarm=10))
    if prof.get("longrun") and draw(chance(prof["longrun"])):
        prof = dict(prof, accounts=(1, 2), len=(0, 1), prefix=["longrun"])
    cs = draw(confs(prof))
    lo, hi = prof.get("len", (3, 14))
    op = weighted(prof["ops"]).flatmap(lambda k: MACROS[k](prof))
    macros = draw(st.lists(op, min_size=lo, max_size=hi))
    ops = [o for m in (prof.get("prefix") or []) for o in draw(MACROS[m](prof))] + [o for m in macros for o in m]
    s = {"confs": cs, "ops": ops, "eps": prof.get("eps", 4)}
    if draw(chance(prof.get("daemon", 0.0))):
        s["daemon"] = True
    if draw(chance(prof.get("rel", 0.06))):
        s["rel"] = True
    if prof.get("tz") and draw(chance(prof["tz"])):
        s["tz"] = draw(pick(["<+0530>-5:30", "EST5EDT,M3.2.0,M11.1.0", "<-12>12", "<+14>-14", "nonsense"]))
    if prof.get("tls"):
        s["tls"] = {str(i): draw(pick(TLS_MODES)) for i in range(s["eps"])}
        s["tls_days"] = draw(pick([1, 36500, 36500]))
    if prof.get("layout") and draw(chance(prof["layout"])):
        s["layout"] = draw(st.integers(0, 10 ** 6))
    if prof.get("shell") and draw(chance(prof["shell"])):
        s["shell"] = draw(pick(["missing", "unset"]))
    if prof.get("verbose"):
        s["verbose"] = draw(pick(prof["verbose"]))
    if prof.get("clock") and draw(chance(prof["clock"])):
        s["clock"] = draw(pick([{"real": 1 * 10 ** 9}, {"real": 4102444800 * 10 ** 9}, {"boot": 10 ** 9 * 86400 * 3000, "mono": 10 ** 9 * 86400 * 1000}, {"real": 253402300000 * 10 ** 9 // 60}]))
    return s
