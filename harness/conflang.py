"""The documented configuration language, written down independently of pizauth's own lexer, grammar and checks.

judge(text) returns ("ok", conf) | ("bad", why) | ("unsure", why).
"""
import re

from .conf import UNIT

STR_TOP = {"auth_notify_cmd", "error_notify_cmd", "transient_error_if_cmd", "token_event_cmd"}
TIME_TOP = {"auth_notify_interval", "refresh_at_least", "refresh_before_expiry", "refresh_retry"}
LISTEN = {"http_listen", "https_listen"}
STR_ACT = {"client_id", "client_secret", "login_hint"}
URI_ACT = {"auth_uri", "redirect_uri", "token_uri"}
TIME_ACT = {"refresh_at_least", "refresh_before_expiry", "refresh_retry"}
WORDS = STR_TOP | TIME_TOP | LISTEN | STR_ACT | URI_ACT | TIME_ACT | {"account", "none", "auth_uri_fields", "scopes", "auth_error_cmd"}
BY_LEN = sorted(WORDS, key=len, reverse=True)


class Bad(Exception):
    pass


class Unsure(Exception):
    pass


def tokens(text):
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if c in " \t\n":
            i += 1
        elif c == "\r":
            # only as part of CR LF is it surely a line end
            if text[i + 1:i + 2] != "\n" and i + 1 < n:
                raise Unsure("bare carriage return")
            i += 1
        elif text.startswith("//", i):
            j = text.find("\n", i)
            j = n if j < 0 else j
            if "\r" in text[i:j].rstrip("\r"):
                raise Unsure("bare carriage return in comment")
            i = j
        elif c == '"':
            j, s = i + 1, []
            while True:
                if j >= n:
                    raise Bad("unterminated string")
                if text[j] == "\\":
                    if text[j + 1:j + 2] not in ("\\", '"'):
                        raise Bad("unknown escape")
                    s.append(text[j + 1])
                    j += 2
                elif text[j] == '"':
                    break
                else:
                    s.append(text[j])
                    j += 1
            out.append(("str", "".join(s)))
            i = j + 1
        elif c in "={}[],;:":
            out.append((c, c))
            i += 1
        elif "0" <= c <= "9":
            j = i
            while j < n and "0" <= text[j] <= "9":
                j += 1
            if text[j:j + 1] in ("s", "m", "h", "d") and text[j:j + 1]:
                out.append(("time", text[i:j + 1]))
                j += 1
            else:
                out.append(("int", text[i:j]))
            i = j
        else:
            for w in BY_LEN:
                if text.startswith(w, i):
                    out.append((w, w))
                    i += len(w)
                    break
            else:
                raise Bad("unknown text at %r" % text[i:i + 10])
    return out


def check_time(t):
    if int(t[:-1]) * UNIT[t[-1]] > 2 ** 64 - 1:
        raise Bad("time too large")
    if len(t) > 40:
        raise Unsure("very long time")
    return t


REG = r"[A-Za-z0-9](?:[A-Za-z0-9-]*[A-Za-z0-9])?"
HOST = r"(?:%s(?:\.%s)*|@EP\d@)" % (REG, REG)
GOOD_URI = re.compile(r"(?i:https?)://(?:%s)(?::(\d{1,5}))?(?:/(?:[A-Za-z0-9._~!$&'()*+,;=:@/-]|%%[0-9A-Fa-f]{2})*)?(?:\?(?:[A-Za-z0-9._~!$&()*+,;=:@/?-]|%%[0-9A-Fa-f]{2})*)?"
                      r"(?:#(?:[A-Za-z0-9._~-])*)?" % HOST)
NOSCHEME = re.compile(r"[A-Za-z0-9._/@%-]*")
OTHER = re.compile(r"([A-Za-z][A-Za-z0-9+.-]*):[A-Za-z0-9._~/?&=@:%-]*")


def check_uri(s):
    m = GOOD_URI.fullmatch(s)
    if m:
        if m.group(1) and int(m.group(1)) > 65535:
            raise Bad("port out of range")
        h = re.match(r"\w+://([^/?#:]*)", s).group(1)
        last = h.split(".")[-1]
        if re.fullmatch(r"\d+|0[xX][0-9a-fA-F]*", last) and not re.fullmatch(r"(?:(?:25[0-5]|2[0-4]\d|1\d\d|[1-9]?\d)\.){3}(?:25[0-5]|2[0-4]\d|1\d\d|[1-9]?\d)", h):
            raise Unsure("numeric host")
        if any(x.lower().startswith("xn--") for x in h.split(".")):
            raise Unsure("punycode")
        if re.search(r"/(?:\.|%2[eE]){1,2}(?:[/?#]|$)", s):
            raise Unsure("dot segments")
        return s
    if NOSCHEME.fullmatch(s):
        raise Bad("not an absolute URI")
    m = OTHER.fullmatch(s)
    if m and m.group(1).lower() not in ("http", "https"):
        raise Bad("not an http(s) URI")
    if re.fullmatch(r"(?i:https?)://(?:[/?#].*)?", s, re.S) and not re.fullmatch(r"(?i:https?):/{2,}[^/].*", s, re.S):
        raise Bad("no host")
    if re.match(r"(?i:https?)://%s:(\d{6,}|[A-Za-z][A-Za-z0-9]*)(/|$)" % HOST, s):
        raise Bad("bad port")
    if re.match(r"(?i:https?)://[A-Za-z0-9.]*[ <>^|%%][A-Za-z0-9. ]*(/|$)" % (), s):
        if "%" in s.split("/")[2]:
            raise Unsure("percent in host")
        raise Bad("bad host")
    raise Unsure("URI")


class Parser:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def take(self, kind):
        if self.peek() != kind:
            raise Bad("expected %s, found %r" % (kind, self.t[self.i] if self.i < len(self.t) else "end"))
        v = self.t[self.i][1]
        self.i += 1
        return v

    def top(self):
        """Grammar first, then meaning: both kinds of fault mean refusal."""
        out = []
        while self.peek() is not None:
            k = self.peek()
            self.i += 1
            if k == "account":
                name = self.take("str")
                self.take("{")
                f = []
                while self.peek() != "}":
                    f.append(self.field())
                self.take("}")
                out.append(("account", name, f))
                continue
            self.take("=") if k in STR_TOP | TIME_TOP | LISTEN | {"auth_error_cmd"} else self.no(k)
            if k in TIME_TOP:
                v = self.take("time")
            elif k in LISTEN and self.peek() == "none":
                v = None
                self.i += 1
            else:
                v = self.take("str")
            self.take(";")
            out.append((k, v, None))
        return out

    def no(self, k):
        raise Bad("%r not expected here" % k)

    def field(self):
        k = self.peek()
        if k is None:
            raise Bad("end of file in account")
        self.i += 1
        if k not in STR_ACT | URI_ACT | TIME_ACT | {"auth_uri_fields", "scopes"}:
            self.no(k)
        self.take("=")
        if k in TIME_ACT:
            v = self.take("time")
        elif k in ("auth_uri_fields", "scopes"):
            o, c = ("{", "}") if k == "auth_uri_fields" else ("[", "]")
            self.take(o)
            v = []
            while self.peek() != c:
                if v:
                    self.take(",")
                x = self.take("str")
                if o == "{":
                    self.take(":")
                    x = [x, self.take("str")]
                v.append(x)
            self.take(c)
        else:
            v = self.take("str")
        self.take(";")
        return k, v


def judge(text):
    unsure = []
    try:
        if "\0" in text:
            raise Unsure("NUL")
        tops = Parser(tokens(text)).top()
        c = {"accounts": []}
        for k, v, f in tops:
            if k == "auth_error_cmd":
                raise Bad("auth_error_cmd")
            if k != "account":
                if k in c:
                    raise Bad("%s twice" % k)
                c[k] = v if v is not None else "none"
                if k in TIME_TOP:
                    check_time(v)
                continue
            a = {}
            for fk, fv in f:
                if fk in a:
                    raise Bad("%s twice" % fk)
                a[fk] = fv
                if fk in URI_ACT:
                    try:
                        check_uri(fv)
                    except Unsure as e:
                        unsure.append(e)
                if fk in TIME_ACT:
                    check_time(fv)
            for m in ("auth_uri", "client_id", "token_uri"):
                if m not in a:
                    raise Bad("%s missing" % m)
            if "login_hint" in a and any(x[0] == "login_hint" for x in a.get("auth_uri_fields", [])):
                raise Bad("login_hint twice")
            a["name"] = v
            c["accounts"].append(a)
        if not c["accounts"]:
            raise Bad("no account")
        if len(set(a["name"] for a in c["accounts"])) < len(c["accounts"]):
            raise Unsure("account given twice")
        if any(k in LISTEN and v == "none" for k, v, _ in tops):
            raise Unsure("listening on a host called none")
        off = {l: any(k == l and v is None for k, v, _ in tops) for l in LISTEN}
        if all(off.values()):
            raise Bad("both listeners off")
        for a in c["accounts"]:
            s = (a.get("redirect_uri") or "http://localhost/").split(":")[0].lower()
            if s in ("http", "https") and off[s + "_listen"]:
                raise Bad("no listener for redirect_uri")
        if unsure:
            raise unsure[0]
        return "ok", c
    except Bad as e:
        return "bad", str(e)
    except Unsure as e:
        return "unsure", str(e)
