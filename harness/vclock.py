"""Shared-memory virtual clock (see shim/pzshim.c)."""
import ctypes, mmap, os, struct

NCLOG = 4096
NSLOTS = 256
SLOT = 32
SIZE = 120 + 8 * NCLOG + SLOT * NSLOTS
NS = 1_000_000_000

_libc = ctypes.CDLL(None, use_errno=True)
KINDS = {1: "futex", 2: "sleep", 3: "poll", 4: "recv"}


class VClock:
    OFF = dict(mono=(8, "Q"), boot=(16, "Q"), real=(24, "q"), ticks=(32, "Q"), epoch=(40, "I"), ack=(44, "I"),
               hold=(48, "I"), held=(52, "I"), spawned=(56, "Q"), threads=(64, "Q"), pid=(72, "I"),
               helper_tid=(76, "I"), ready=(80, "I"), pend=(84, "I"), stall_on=(96, "I"), stall_at=(100, "I"),
               stalled=(104, "I"), stall_kind=(108, "I"), nlog=(112, "Q"))

    def __init__(self, path, mono=1_000_000 * NS, boot=12_000_000 * NS, real=1_760_000_000 * NS):
        self.path = path
        with open(path, "wb") as f:
            f.truncate(SIZE)
        fd = os.open(path, os.O_RDWR)
        self.mm = mmap.mmap(fd, SIZE)
        os.close(fd)
        self.addr = ctypes.addressof(ctypes.c_char.from_buffer(self.mm))
        self.set("mono", mono)
        self.set("boot", boot)
        self.set("real", real)
        self.logpos = 0

    def get(self, k):
        o, f = self.OFF[k]
        return struct.unpack_from("<" + f, self.mm, o)[0]

    def set(self, k, v):
        o, f = self.OFF[k]
        struct.pack_into("<" + f, self.mm, o, v)

    def _wake(self, k):
        _libc.syscall(ctypes.c_long(202), ctypes.c_void_p(self.addr + self.OFF[k][0]), ctypes.c_long(1),
                      ctypes.c_long(0x7fffffff), None, None, ctypes.c_long(0))

    def bump(self):
        self.set("epoch", (self.get("epoch") + 1) & 0xffffffff)
        self._wake("epoch")

    def advance(self, ns, boot_ns=None, real_ns=None):
        self.set("boot", self.get("boot") + (ns if boot_ns is None else boot_ns))
        self.set("real", self.get("real") + (ns if real_ns is None else real_ns))
        self.set("mono", self.get("mono") + ns)
        self.bump()

    def release_hold(self):
        self.set("hold", 0)
        self._wake("hold")

    def stall(self, k, locks=False):
        """The thread that makes the k-th allocator call or clock read (or attempt to take a lock) from now on waits there."""
        self.set("stall_kind", 1 if locks else 0)
        self.set("stall_at", k)
        self.set("stall_on", 1)

    def release_stall(self):
        self.set("stall_at", 0)
        self.set("stall_on", 0)
        self._wake("stall_on")

    def acked(self):
        return self.get("ack") == self.get("epoch")

    def connects(self):
        """New entries of the connect log: list of (kind, ip, port)."""
        n = self.get("nlog")
        out = []
        while self.logpos < n:
            e = struct.unpack_from("<Q", self.mm, 120 + 8 * (self.logpos % NCLOG))[0]
            out.append((e & 0xff, e >> 32, (e >> 8) & 0xffff))
            self.logpos += 1
        return out

    def slots(self):
        base = 120 + 8 * NCLOG
        out = []
        for i in range(NSLOTS):
            used, kind, dl, addr, tid, word = struct.unpack_from("<IIQQII", self.mm, base + SLOT * i)
            if used == 2:
                out.append((KINDS.get(kind, kind), dl, tid))
        return out

    def close(self):
        try:
            os.unlink(self.path)
        except OSError:
            pass
