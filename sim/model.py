"""Executable reference models (small, sequential, no timing).

GoldenCache: what one blocking write-back cache does with a stream of requests,
given the data memory returns: the exact responses and memory requests.
"""
from engine import READ, WRITE, INIT, AMO_LO, AMO_HI, INV, FLUSH, amo


class Line:
    __slots__ = ("val", "dty", "tag", "data")

    def __init__(self):
        self.val, self.dty, self.tag, self.data = False, 0, 0, None


def nbytes(c, t, len_):
    """Bytes a request touches."""
    if AMO_LO <= t <= AMO_HI:
        return 4
    if c.dbw == 32 and len_ == 3:
        return 8 if t == WRITE else 3   # double-word zero-extending write
    return len_ or c.dbytes


class GoldenCache:
    """step() returns (list of expected memory ops); the caller supplies
    memory read data through `fetch(kind, addr, ...)`."""

    def __init__(self, c):
        self.c = c
        self.reset()

    def reset(self):
        c = self.c
        self.sets = [[Line() for _ in range(c.asso)] for _ in range(c.sets)]
        self.rep = [0] * c.sets

    def lookup(self, addr):
        c = self.c
        i, t = c.index(addr), c.tag(addr)
        hit = inv = None
        for w, l in enumerate(self.sets[i]):
            if l.tag == t:
                if l.val:
                    hit = w
                elif l.dty:
                    inv = w
        return i, t, hit, inv

    def laddr(self, i, tag):
        return (tag * self.c.sets + i) * self.c.line

    def _touch(self, i, used):
        if self.c.asso == 2:
            self.rep[i] = 1 - used

    def plan(self, t, addr, len_, data):
        """Yield-based coroutine: yields memory ops
        ('wr', addr, mask, bytes) / ('rd', addr) / ('amo', type, addr, operand)
        and is sent the response data; returns (hit, response bytes)."""
        c = self.c
        L = c.line
        if t == INV:
            for s in self.sets:
                for l in s:
                    l.val = False
            return 0, b""
        if t == FLUSH:
            for k in range(c.nlines - 1, -1, -1):
                i, w = divmod(k, c.asso)
                l = self.sets[i][w]
                if l.dty:
                    yield ("wr", self.laddr(i, l.tag), l.dty, bytes(l.data))
                    l.dty = 0
            return 0, b""
        i, tag, hit, inv = self.lookup(addr)
        ways = self.sets[i]
        if AMO_LO <= t <= AMO_HI:
            w = hit if hit is not None else inv
            if w is not None:
                l = ways[w]
                if l.dty:
                    yield ("wr", self.laddr(i, l.tag), l.dty, bytes(l.data))
                l.val, l.dty, l.tag = False, 0, 0
                if c.asso == 2:
                    self.rep[i] = w
            r = yield ("amo", t, addr, data & 0xffffffff)
            return 0, r
        base = addr - addr % L
        off = addr % L
        if hit is not None:
            l = ways[hit]
            self._touch(i, hit)
        else:
            w = inv if inv is not None else self.rep[i]
            l = ways[w]
            if inv is None and l.dty:
                yield ("wr", self.laddr(i, l.tag), l.dty, bytes(l.data))
                l.dty = 0
            r = yield ("rd", base)
            d = bytearray(r)
            for j in range(L // 4):
                if l.dty >> j & 1:
                    d[4 * j:4 * j + 4] = l.data[4 * j:4 * j + 4]
            l.data, l.tag, l.val = d, tag, True
            self._touch(i, w)
        n = nbytes(c, t, len_)
        h = 1 if hit is not None else 0
        if t == READ:
            return h, bytes(l.data[off:off + n])
        m = data & ((1 << (8 * min(n, c.dbytes))) - 1)
        l.data[off:off + n] = m.to_bytes(n, "little")
        for b in range(off // 4, (off + n - 1) // 4 + 1):
            l.dty |= 1 << b
        return h, b""
