"""Independent implementation of the dump format (bincode 1 records sealed with ChaCha20-Poly1305)."""
import struct

KEY = bytes.fromhex("66a247a85e48cfecaaed9b36eba97d53" "50d428637509" "7a44eeffb9c4546b65a3")


def _rotl(x, n):
    return ((x << n) | (x >> (32 - n))) & 0xffffffff


def _block(key, ctr, nonce):
    st = list(struct.unpack("<4I", b"expand 32-byte k")) + list(struct.unpack("<8I", key)) + [ctr] + list(
        struct.unpack("<3I", nonce))
    w = st[:]

    def qr(a, b, c, d):
        w[a] = (w[a] + w[b]) & 0xffffffff; w[d] = _rotl(w[d] ^ w[a], 16)
        w[c] = (w[c] + w[d]) & 0xffffffff; w[b] = _rotl(w[b] ^ w[c], 12)
        w[a] = (w[a] + w[b]) & 0xffffffff; w[d] = _rotl(w[d] ^ w[a], 8)
        w[c] = (w[c] + w[d]) & 0xffffffff; w[b] = _rotl(w[b] ^ w[c], 7)

    for _ in range(10):
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15)
        qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14)
    return struct.pack("<16I", *[(x + y) & 0xffffffff for x, y in zip(w, st)])


def _xor(key, nonce, data):
    out = bytearray()
    for i in range(0, len(data), 64):
        ks = _block(key, 1 + i // 64, nonce)
        out += bytes(a ^ b for a, b in zip(data[i:i + 64], ks))
    return bytes(out)


def _tag(key, nonce, ct):
    k = _block(key, 0, nonce)
    r = int.from_bytes(k[:16], "little") & 0x0ffffffc0ffffffc0ffffffc0fffffff
    s = int.from_bytes(k[16:32], "little")
    msg = ct + b"\0" * (-len(ct) % 16) + struct.pack("<QQ", 0, len(ct))
    acc = 0
    for i in range(0, len(msg), 16):
        acc = (acc + int.from_bytes(msg[i:i + 16] + b"\1", "little")) * r % ((1 << 130) - 5)
    return ((acc + s) & ((1 << 128) - 1)).to_bytes(16, "little")


class BadDump(Exception):
    pass


def unseal(d):
    if len(d) < 28:
        raise BadDump("too short")
    nonce, ct, tag = d[:12], d[12:-16], d[-16:]
    if _tag(KEY, nonce, ct) != tag:
        raise BadDump("bad tag")
    return _xor(KEY, nonce, ct)


def seal(nonce, plain):
    ct = _xor(KEY, nonce, plain)
    return nonce + ct + _tag(KEY, nonce, ct)


class R:
    def __init__(self, b):
        self.b, self.o = b, 0

    def take(self, n):
        if self.o + n > len(self.b):
            raise BadDump("truncated record")
        v = self.b[self.o:self.o + n]
        self.o += n
        return v

    def u64(self):
        return struct.unpack("<Q", self.take(8))[0]

    def u32(self):
        return struct.unpack("<I", self.take(4))[0]

    def s(self):
        return self.take(self.u64()).decode("utf-8")

    def opt(self, f):
        t = self.take(1)[0]
        if t > 1:
            raise BadDump("bad option tag")
        return f() if t else None

    def vec(self, f):
        return [f() for _ in range(self.u64())]

    def time(self):
        s, n = self.u64(), self.u32()
        return s * 1_000_000_000 + n


def decode(plain):
    r = R(plain)
    out = {"version": r.u64(), "accounts": {}}
    for _ in range(r.u64()):
        name = r.s()
        if name in out["accounts"]:
            raise BadDump("duplicate account")
        a = dict(auth_uri=r.s(), auth_uri_fields=r.vec(lambda: [r.s(), r.s()]), client_id=r.s(),
                 client_secret=r.opt(r.s), redirect_uri=r.s(), scopes=r.vec(r.s), token_uri=r.s())
        v = r.u32()
        if v == 0:
            t = None
        elif v == 1:
            t = dict(access_token=r.s(), obtained=r.time(), expiry=r.time(), refresh_token=r.opt(r.s))
        else:
            raise BadDump("bad variant")
        out["accounts"][name] = (a, t)
    if r.o != len(plain):
        raise BadDump("trailing bytes")
    return out


def _s(x):
    b = x.encode("utf-8")
    return struct.pack("<Q", len(b)) + b


def _opt(x):
    return b"\0" if x is None else b"\1" + _s(x)


def _t(ns):
    return struct.pack("<QI", ns // 1_000_000_000, ns % 1_000_000_000)


def encode(d):
    out = struct.pack("<QQ", d["version"], len(d["accounts"]))
    for name, (a, t) in d["accounts"].items():
        out += _s(name) + _s(a["auth_uri"]) + struct.pack("<Q", len(a["auth_uri_fields"]))
        for k, v in a["auth_uri_fields"]:
            out += _s(k) + _s(v)
        out += _s(a["client_id"]) + _opt(a["client_secret"]) + _s(a["redirect_uri"]) + struct.pack("<Q", len(a["scopes"]))
        for s in a["scopes"]:
            out += _s(s)
        out += _s(a["token_uri"])
        if t is None:
            out += struct.pack("<I", 0)
        else:
            out += struct.pack("<I", 1) + _s(t["access_token"]) + _t(t["obtained"]) + _t(t["expiry"]) + _opt(t["refresh_token"])
    return out


def spki(der):
    """The public key (the bits of subjectPublicKey) in a DER certificate."""
    def tlv(b, o):
        t, n = b[o], b[o + 1]
        o += 2
        if n & 0x80:
            k = n & 0x7f
            n = int.from_bytes(b[o:o + k], "big")
            o += k
        return t, o, o + n

    def items(b, o, e):
        out = []
        while o < e:
            t, s, x = tlv(b, o)
            out.append((t, s, x))
            o = x
        return out

    _, s, e = tlv(der, 0)
    _, s, e = items(der, s, e)[0]
    f = [x for x in items(der, s, e) if x[0] != 0xa0]
    # serial, signature, issuer, validity, subject, subjectPublicKeyInfo
    alg, bits = items(der, f[5][1], f[5][2])[:2]
    return der[bits[1] + 1:bits[2]]
