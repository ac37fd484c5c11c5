"""Configurations as data: rendering and meaning."""

UNIT = {"s": 1, "m": 60, "h": 3600, "d": 86400}
NS = 1_000_000_000


def secs(t):
    return int(t[:-1]) * UNIT[t[-1]]


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


TOP = ["auth_notify_cmd", "auth_notify_interval", "error_notify_cmd", "http_listen", "https_listen",
       "transient_error_if_cmd", "refresh_at_least", "refresh_before_expiry", "refresh_retry", "token_event_cmd"]
TIMES = {"auth_notify_interval", "refresh_at_least", "refresh_before_expiry", "refresh_retry"}
ACT = ["auth_uri", "auth_uri_fields", "client_id", "client_secret", "login_hint", "redirect_uri", "refresh_at_least",
       "refresh_before_expiry", "refresh_retry", "scopes", "token_uri"]


def render_value(k, v):
    if k in TIMES:
        return v
    if k == "auth_uri_fields":
        return "{" + ", ".join(q(a) + ": " + q(b) for a, b in v) + "}"
    if k == "scopes":
        return "[" + ", ".join(q(x) for x in v) + "]"
    if k in ("http_listen", "https_listen") and v == "none":
        return "none"
    return q(v)


def render(c):
    out = []
    for k in TOP:
        if c.get(k) is not None:
            out.append("%s = %s;" % (k, render_value(k, c[k])))
    for a in c["accounts"]:
        out.append("account %s {" % q(a["name"]))
        for k in ACT:
            if a.get(k) is not None:
                out.append("  %s = %s;" % (k, render_value(k, a[k])))
        out.append("}")
    return "\n".join(out) + "\n"


def fields_eff(a):
    """auth_uri_fields including the deprecated login_hint."""
    f = [list(x) for x in (a.get("auth_uri_fields") or [])]
    if a.get("login_hint") is not None:
        f.append(["login_hint", a["login_hint"]])
    return f


def sec_fields(a):
    return (a["name"], a["auth_uri"], [list(x) for x in (a.get("auth_uri_fields") or [])], a["client_id"],
            a.get("client_secret"), a.get("redirect_uri") or "http://localhost/", list(a.get("scopes") or []),
            a["token_uri"], a.get("login_hint"))


def timing(c, a, k):
    d = {"refresh_at_least": "90m", "refresh_before_expiry": "90s", "refresh_retry": "40s"}[k]
    return secs(a.get(k) or c.get(k) or d) * NS


def toks_value(k, v):
    if k in TIMES:
        return [v]
    if k == "auth_uri_fields":
        out = ["{"]
        for i, (a, b) in enumerate(v):
            out += ([","] if i else []) + [q(a), ":", q(b)]
        return out + ["}"]
    if k == "scopes":
        out = ["["]
        for i, a in enumerate(v):
            out += ([","] if i else []) + [q(a)]
        return out + ["]"]
    if k in ("http_listen", "https_listen") and v == "none":
        return ["none"]
    return [q(v)]


def render_tokens(c, rng):
    """The configuration's tokens, options and accounts in an arbitrary order."""
    items = [[k, "="] + toks_value(k, c[k]) + [";"] for k in TOP if c.get(k) is not None]
    accs = []
    for a in c["accounts"]:
        f = [[k, "="] + toks_value(k, a[k]) + [";"] for k in ACT if a.get(k) is not None]
        rng.shuffle(f)
        accs.append(["account", q(a["name"]), "{"] + [t for x in f for t in x] + ["}"])
    items += accs
    rng.shuffle(items)
    return [t for x in items for t in x]


GAPS = ["", "", "", " ", "  ", "\n", "\t", "\r\n", " \n\t ", "// comment\n", " // \"; account { \u00e9 \\ //\n", "//\n", "//none;\r\n", "\n\n\n//=//=\n"]


def layout(toks, rng):
    """Joins tokens with arbitrary white space and comments."""
    mode = rng.randrange(4)
    out = []
    for t in toks:
        g = {0: "", 1: " ", 2: "\n"}.get(mode)
        out.append(rng.choice(GAPS) if g is None else g)
        out.append(t)
    out.append(rng.choice(GAPS + ["// end", "//", "//\""]))
    return "".join(out)
