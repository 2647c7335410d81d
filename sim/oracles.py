"""Oracles: each takes (scenario, trace) and returns None or a one-line
description of a violation. They judge only externally visible events and use
small reference models of their own, never the design's internal state."""
from cfg import Cfg
from engine import (REQ, RESP, MREQ, MSRV, MRESP, RST, UNRST, EXT, PROTO, END, ABORT, RDY,
                    READ, WRITE, INIT, AMO_LO, AMO_HI, INV, FLUSH, Memory, amo, show, TNAME)
from model import GoldenCache

# event fields
K, I, CYC, A, B, C_, D, E_, F_, DATA = range(10)


def is_amo(t):
    return AMO_LO <= t <= AMO_HI


def nbytes(c, t, ln):
    if is_amo(t):
        return 4
    if c.dbw == 32 and ln == 3:
        return 8 if t == WRITE else 4
    return ln or c.dbytes


def wdata(c, ev):
    """Bytes a WRITE request stores."""
    n = nbytes(c, WRITE, ev[E_])
    if n > c.dbytes:
        return ev[DATA][:c.dbytes] + b"\0" * (n - c.dbytes)
    return ev[DATA][:n]


def operand(ev):
    return int.from_bytes(ev[DATA][:4], "little")


def hexle(b):
    return "0x" + bytes(b)[::-1].hex()


def val(e, c):
    return hexle(e[DATA][:c.dbytes])


def rq(e):
    return f"{TNAME.get(e[B], e[B])} #{e[A]} addr={e[D]:#x} len={e[E_]}"


def cfgs(sc):
    return [Cfg(*c) for c in sc["cfgs"]]


class Flat(Memory):
    """A flat memory with the simulator's initial contents."""

    def __init__(self, sc):
        super().__init__(sc["mem_seed"])

    put = Memory.wbytes


class Seg:
    """One request and everything the cache did for it. The cache is blocking:
    memory requests between two responses belong to the later one."""
    __slots__ = ("req", "mreqs", "resp")

    def __init__(self, req, mreqs, resp):
        self.req, self.mreqs, self.resp = req, mreqs, resp


class Cutter:
    """Incremental segmentation of one cache's events."""

    def __init__(self):
        self.q, self.m = [], []

    def feed(self, e):
        """Returns a finished Seg, or None."""
        k = e[K]
        if k == REQ:
            self.q.append(e)
        elif k == MREQ:
            self.m.append(e)
        elif k == RST:
            self.q, self.m = [], []
        elif k == RESP and self.q:
            s = Seg(self.q.pop(0), self.m, e)
            self.m = []
            return s
        return None


class RealMemory(Flat):
    """Actual memory contents, rebuilt from the trace's service events."""

    def __init__(self, sc):
        super().__init__(sc)
        self.cf = cfgs(sc)
        self.opnd = {}

    def changes(self, e):
        """Word addresses event e writes."""
        if e[K] == EXT:
            return [e[A] >> 2]
        if e[K] == MSRV:
            if e[B] == WRITE:
                return [(e[D] >> 2) + j for j in range(self.cf[e[I]].line // 4) if e[F_] >> j & 1]
            if is_amo(e[B]):
                return [e[D] >> 2]
        return []

    def feed(self, e):
        k = e[K]
        if k == MREQ and is_amo(e[B]):
            self.opnd[e[I], e[A]] = operand(e)
        elif k == MSRV:
            if e[B] == WRITE:
                for j in range(self.cf[e[I]].line // 4):
                    if e[F_] >> j & 1:
                        self.put(e[D] + 4 * j, e[DATA][4 * j:4 * j + 4])
            elif is_amo(e[B]):
                self.wr(e[D] >> 2, amo(e[B], self.rd(e[D] >> 2), self.opnd[e[I], e[A]]))
        elif k == EXT:
            self.wr(e[A] >> 2, e[B])


class Residency:
    """Which line is in which way, and whose turn it is to go: the reference for
    hit flags, fetches and victims. Data plays no part."""

    def __init__(self, c):
        self.c = c
        self.g = GoldenCache(c)

    def reset(self):
        self.g.reset()

    def access(self, e):
        """(expected hit flag, expected memory operations)"""
        c = self.c
        co = self.g.plan(e[B], e[D], e[E_], int.from_bytes(e[DATA][:32], "little"))
        ops = []
        try:
            op = next(co)
            while True:
                ops.append(op)
                op = co.send(bytes(4 if op[0] == "amo" else c.line))
        except StopIteration as s:
            return s.value[0], ops


# ---------------------------------------------------------------------------
def seq_memory(sc, tr):
    """C01: a single master sees one flat memory, in order of acceptance."""
    c = cfgs(sc)[0]
    mem = Flat(sc)
    want = {}
    for e in tr:
        if e[K] == REQ:
            t = e[B]
            if t == READ:
                want[e[A]] = mem.bytes(e[D], nbytes(c, t, e[E_]))
            elif t == WRITE:
                mem.put(e[D], wdata(c, e))
            elif is_amo(t):
                want[e[A]] = mem.op(t, e[D], 4, 0, e[DATA][:4], c.line)
        elif e[K] == RESP and e[A] in want:
            w = want[e[A]]
            if e[DATA][:len(w)] != w:
                return f"cycle {e[CYC]}: request #{e[A]} returned {val(e, c)} instead of {hexle(w)}"
    return None


# ---------------------------------------------------------------------------
def responses(sc, tr):
    """C02: exactly one response per request, in order, echoing it."""
    cf = cfgs(sc)
    q = [[] for _ in cf]
    for e in tr:
        i = e[I]
        if e[K] == REQ:
            q[i].append(e)
        elif e[K] == RST:
            q[i] = []
        elif e[K] == RESP:
            if not q[i]:
                return f"cycle {e[CYC]}: cache {i} sent a response nobody asked for: {show(e)}"
            r = q[i].pop(0)
            if (e[B], e[C_], e[E_]) != (r[B], r[C_], r[E_]):
                return (f"cycle {e[CYC]}: response type/opaque/len {(e[B], e[C_], e[E_])} does not echo the oldest "
                        f"outstanding request #{r[A]} {(r[B], r[C_], r[E_])}")
            if r[B] in (WRITE, INV, FLUSH) and any(e[DATA][:cf[i].dbytes]):
                return f"cycle {e[CYC]}: response to {rq(r)} carries data {val(e, cf[i])}"
            if r[B] == READ or is_amo(r[B]):
                m = nbytes(cf[i], r[B], r[E_])
                if any(e[DATA][m:cf[i].dbytes]):
                    return f"cycle {e[CYC]}: response to {rq(r)} is not zero-extended: {val(e, cf[i])}"
    if tr[-1][A] == 1 and any(q):
        i = [k for k in range(len(cf)) if q[k]][0]
        return f"{rq(q[i][0])} of cache {i}, accepted in cycle {q[i][0][CYC]}, was never answered"
    return None


# ---------------------------------------------------------------------------
def hit_flags(sc, tr):
    """C03: the hit flag, and the lines fetched and evicted, follow LRU."""
    c = cfgs(sc)[0]
    m, cut = Residency(c), Cutter()
    for e in tr:
        if e[K] == RST:
            m.reset()
        s = cut.feed(e)
        if s is None:
            continue
        r = s.req
        h, ops = m.access(r)
        if s.resp[D] != h:
            return (f"cycle {e[CYC]}: {rq(r)} reported {'hit' if e[D] else 'miss'} ({e[D]}), "
                    f"expected {'hit' if h else 'miss'}")
        if r[B] in (READ, WRITE):
            want = [(o[0], o[1]) for o in ops if o[0] != "amo"]
            got = [("wr" if x[B] == WRITE else "rd", x[D]) for x in s.mreqs if x[B] in (READ, WRITE)]
            wv = sorted(a for k, a in want if k == "wr")
            gv = sorted(a for k, a in got if k == "wr")
            if wv != gv:
                return (f"cycle {e[CYC]}: {rq(r)} evicted {[hex(a) for a in gv]}, "
                        f"the least recently used dirty victim is {[hex(a) for a in wv]}")
    return None


# ---------------------------------------------------------------------------
def preload(sc, tr):
    """C25: what WRITE_INITs put into a direct-mapped cache is there, clean, until
    it is written, dropped or replaced."""
    c = cfgs(sc)[0]
    g, mem, cut, part = GoldenCache(c), RealMemory(sc), Cutter(), {}
    for e in tr:
        mem.feed(e)
        if e[K] == RST:
            g.reset()
            part = {}
        s = cut.feed(e)
        if s is None:
            continue
        r, at = s.req, f"cycle {e[CYC]}: {rq(s.req)}"
        if (e[B], e[C_], e[E_]) != (r[B], r[C_], r[E_]):
            return f"{at}: the answer does not echo type, opaque and len: {show(e)}"
        data = int.from_bytes(r[DATA][:32], "little")
        if r[B] == INIT:
            if s.mreqs:
                return f"{at} sent a memory request: {show(s.mreqs[0])}"
            if e[D] or any(e[DATA][:c.dbytes]):
                return f"{at} was answered with hit flag {e[D]}, data {val(e, c)}"
            i, t = c.index(r[D]), c.tag(r[D])
            l, off, n = g.sets[i][0], r[D] % c.line, nbytes(c, WRITE, r[E_])
            if not l.val or l.tag != t:
                l.val, l.tag, l.dty, l.data = True, t, 0, bytearray(c.line)
                part[i] = (1 << c.line) - 1
            l.data[off:off + n] = r[DATA][:n]
            part[i] = part.get(i, 0) & ~((1 << n) - 1 << off)
            continue
        if r[B] < INV and part.get(c.index(r[D])):
            return None                     # a line loaded in part: nothing is promised
        co, want, h = g.plan(r[B], r[D], r[E_], data), [], None
        try:
            op = next(co)
            while True:
                want.append(op)
                op = co.send(bytes(4) if op[0] == "amo" else mem.bytes(op[1], c.line) if op[0] == "rd" else None)
        except StopIteration as x:
            h, d = x.value
        got = [(x[B], x[D], x[F_] if x[B] == WRITE else 0) for x in s.mreqs]
        exp = [(WRITE, o[1], o[2]) if o[0] == "wr" else (READ, o[1], 0) if o[0] == "rd" else (o[1], o[2], 0) for o in want]
        if got != exp:
            return f"{at} sent {[show(x) for x in s.mreqs]}, expected (type, address, word mask) {exp}"
        for x, o in zip(s.mreqs, want):
            if o[0] == "wr" and any(o[2] >> k // 4 & 1 and x[DATA][k] != o[3][k] for k in range(c.line)):
                return f"{at} wrote back {show(x)}, expected {hexle(o[3])}"
        if e[D] != h:
            return f"{at} reported {'hit' if e[D] else 'miss'}, expected {'hit' if h else 'miss'}"
        if r[B] == READ and e[DATA][:c.dbytes] != d.ljust(c.dbytes, b"\0"):
            return f"{at} returned {val(e, c)}, expected {hexle(d)}"
    return None


# ---------------------------------------------------------------------------
def reset_clean(sc, tr):
    """C04: after a reset at any moment the cache is new; memory, as the dead
    cache left it, is the only state that survives."""
    c = cfgs(sc)[0]
    real, m, cut = RealMemory(sc), Residency(c), Cutter()
    view, written = {}, set()
    nrst, last_un, outstanding = 0, 0, 0
    bound = c.nlines + 8

    def look(w):
        x = view.get(w)
        return real.rd(w) if x is None else x
    for e in tr:
        k = e[K]
        real.feed(e)
        if k == RST:
            view, written, outstanding = {}, set(), 0
            m.reset()
            nrst += 1
        elif k == UNRST:
            last_un = e[CYC]
        elif k == RDY and e[CYC] - last_un > bound:
            return f"cycle {e[CYC]}: ready only {e[CYC] - last_un} cycles after reset (bound {bound})"
        elif k == REQ:
            outstanding += 1
        elif k == RESP:
            if not outstanding:
                return f"cycle {e[CYC]}: response to a request from before reset {nrst - 1}: {show(e)}"
            outstanding -= 1
        elif k == MREQ:
            if not outstanding:
                return f"cycle {e[CYC]}: memory request with nothing outstanding since reset {nrst - 1}: {show(e)}"
            if e[B] == WRITE:
                for j in range(c.line // 4):
                    w = (e[D] >> 2) + j
                    # the oldest outstanding request may itself not have written yet
                    if e[F_] >> j & 1 and w not in written:
                        return f"cycle {e[CYC]}: writes back word {w * 4:#x}, not written since reset {nrst - 1}: {show(e)}"
        s = cut.feed(e)
        if s is None:
            continue
        r, t = s.req, s.req[B]
        h = m.access(r)[0]
        if e[D] != h:
            return (f"cycle {e[CYC]}: {rq(r)} reported {'hit' if e[D] else 'miss'} after reset {nrst - 1}, "
                    f"expected {'hit' if h else 'miss'}")
        if t == READ:
            n = nbytes(c, t, r[E_])
            w = bytes(look((r[D] + j) >> 2) >> (8 * ((r[D] + j) & 3)) & 255 for j in range(n))
            if e[DATA][:n] != w:
                return f"cycle {e[CYC]}: {rq(r)} returned {val(e, c)} after reset {nrst - 1}, expected {hexle(w)}"
        elif t == WRITE:
            for j, v in enumerate(wdata(c, r)):
                a = r[D] + j
                sh = 8 * (a & 3)
                view[a >> 2] = look(a >> 2) & ~(0xff << sh) & 0xffffffff | v << sh
                written.add(a >> 2)
        elif is_amo(t):
            view.pop(r[D] >> 2, None)          # memory holds it now
    if tr[-1][A] == 1:
        return f"no progress after reset {nrst - 1} (stopped at cycle {tr[-1][CYC]})"
    return None


# ---------------------------------------------------------------------------
def flush_durable(sc, tr):
    """C05: when a flush is answered everything written before it is in memory,
    once, and the lines stay."""
    c = cfgs(sc)[0]
    real, m, cut = RealMemory(sc), Residency(c), Cutter()
    mine = {}                                   # word -> value the master last gave it
    kept = {}                                   # values a past flush promised to keep
    for e in tr:
        k = e[K]
        real.feed(e)
        if k == RST:
            m.reset()
            for w, v in kept.items():           # flushed data survives the crash
                if real.rd(w) != v and w not in mine:
                    return f"cycle {e[CYC]}: flushed word {w * 4:#x} is {real.rd(w):#x} in memory at the reset, not {v:#x}"
            mine = {}
        elif k == MSRV and is_amo(e[B]):
            mine.pop(e[D] >> 2, None)
            kept.pop(e[D] >> 2, None)
        s = cut.feed(e)
        if s is None:
            continue
        r, t = s.req, s.req[B]
        h, ops = m.access(r)
        if t == WRITE:
            d = wdata(c, r)
            for j, v in enumerate(d):
                a = r[D] + j
                o = mine.get(a >> 2)
                if o is None:
                    o = kept.get(a >> 2)
                if o is None:
                    o = real.rd(a >> 2)
                sh = 8 * (a & 3)
                mine[a >> 2] = o & ~(0xff << sh) & 0xffffffff | v << sh
                kept.pop(a >> 2, None)
        elif is_amo(t):
            mine.pop(r[D] >> 2, None)
            kept.pop(r[D] >> 2, None)
        elif t == FLUSH:
            for w, v in mine.items():
                if real.rd(w) != v:
                    return (f"cycle {e[CYC]}: flush #{r[A]} answered while word {w * 4:#x} is {real.rd(w):#x} "
                            f"in memory, written as {v:#x}")
            kept.update(mine)
            mine = {}
            if any(x[B] != WRITE for x in s.mreqs):
                return f"cycle {e[CYC]}: flush #{r[A]} made a memory request that is not a write"
            want, got = sorted(o[1] for o in ops), sorted(x[D] for x in s.mreqs)
            if want != got:
                return (f"cycle {e[CYC]}: flush #{r[A]} wrote lines {[hex(x) for x in got]}; "
                        f"the dirty lines were {[hex(x) for x in want]}")
        if t in (READ, WRITE) and e[D] != h:
            return f"cycle {e[CYC]}: {rq(r)} hit={e[D]}, expected {h}: a flush must leave lines resident"
    return None


# ---------------------------------------------------------------------------
class Words:
    """Legal values of reads, word by word, without knowing what is cached.
    A word the cache has written and not yet written back must be returned as
    written. Any other word must have a value memory held at some moment since
    the latest of: the last invalidation, the last write-back of the word by this
    cache, the last AMO to its line, the last reset, and the moment of the value
    read before."""

    def __init__(self, sc):
        self.cf = cfgs(sc)
        n = len(self.cf)
        self.mem = RealMemory(sc)
        self.hist = {}
        self.own = [dict() for _ in range(n)]       # word -> candidate values (dirty)
        self.lo = [0] * n
        self.wlo = [dict() for _ in range(n)]
        self.llo = [dict() for _ in range(n)]
        self.cut = [Cutter() for _ in range(n)]
        self.invs = [dict() for _ in range(n)]
        self.seq = 0

    def cand(self, i, w):
        o = self.own[i].get(w)
        if o is not None:
            return o
        h = self.hist.get(w)
        if h is None:
            return [self.mem.rd(w)]
        lo = max(self.lo[i], self.wlo[i].get(w, 0), self.llo[i].get(w * 4 // self.cf[i].line, 0))
        out = []
        for s, v in h:
            if s <= lo:
                out = [v]
            else:
                out.append(v)
        return out

    def feed(self, e):
        self.seq += 1
        k, i = e[K], e[I]
        ch = self.mem.changes(e)
        for w in ch:
            if w not in self.hist:
                self.hist[w] = [(0, self.mem.rd(w))]
        self.mem.feed(e)
        for w in ch:
            self.hist[w].append((self.seq, self.mem.rd(w)))
        if k == MSRV and is_amo(e[B]):
            self.llo[i][e[D] // self.cf[i].line] = self.seq
        elif k == MSRV and e[B] == WRITE:
            for w in ch:
                self.wlo[i][w] = self.seq
                self.own[i].pop(w, None)
        elif k == RST:
            self.own[i] = {}
            self.lo[i] = self.seq
        elif k == REQ and e[B] == INV:
            self.invs[i][e[A]] = self.seq
        s = self.cut[i].feed(e) if k in (REQ, RESP, MREQ, RST) else None
        if s is None:
            return None
        c, r, t = self.cf[i], s.req, s.req[B]
        if t == INV:
            self.lo[i] = max(self.lo[i], self.invs[i][r[A]])
        elif t in (READ, WRITE):
            d = wdata(c, r) if t == WRITE else e[DATA][:nbytes(c, t, r[E_])]
            j = 0
            while j < len(d):
                a = r[D] + j
                w, o = a >> 2, a & 3
                n = min(4 - o, len(d) - j)
                bits = int.from_bytes(d[j:j + n], "little") << (8 * o)
                mask = ((1 << (8 * n)) - 1) << (8 * o)
                cs = self.cand(i, w)
                if t == READ:
                    ok = [v for v in cs if v & mask == bits]
                    if not ok:
                        return (f"cycle {e[CYC]}: cache {i} {rq(r)} returned {val(e, c)}; word {w * 4:#x} may only be "
                                f"{', '.join(hex(v) for v in sorted(set(cs)))} there")
                    if w in self.own[i]:
                        self.own[i][w] = ok
                else:
                    self.own[i][w] = sorted({v & ~mask & 0xffffffff | bits for v in cs})
                j += n
        return None


def fresh(sc, tr):
    """C06: after INV clean words are read from memory again, written words are kept."""
    w = Words(sc)
    for e in tr:
        m = w.feed(e)
        if m:
            return m
    return None


# ---------------------------------------------------------------------------
def coherence(sc, tr):
    """C07: race-free programs using FLUSH/INV/AMO see one shared memory."""
    cf = cfgs(sc)
    spec = Flat(sc)
    real = RealMemory(sc)
    want, cut = {}, [Cutter() for _ in cf]
    touched = set()
    opnd = {}
    for e in tr:
        k, i = e[K], e[I]
        real.feed(e)
        c = cf[i]
        if k == REQ:
            t = e[B]
            if t == READ:
                want[i, e[A]] = spec.bytes(e[D], nbytes(c, t, e[E_]))
            elif t == WRITE:
                d = wdata(c, e)
                spec.put(e[D], d)
                touched.update(range(e[D] >> 2, ((e[D] + len(d) - 1) >> 2) + 1))
        elif k == MREQ and is_amo(e[B]):
            opnd[i, e[A]] = (e[B], operand(e))
        elif k == MSRV and is_amo(e[B]):
            if cut[i].q:
                r = cut[i].q[0]
                want[i, r[A]] = spec.op(r[B], r[D], 4, 0, r[DATA][:4], c.line)
                touched.add(r[D] >> 2)
        s = cut[i].feed(e) if k in (REQ, RESP, MREQ, RST) else None
        if s:
            w = want.get((i, s.req[A]))
            if is_amo(s.req[B]) and w is None:
                return f"cycle {e[CYC]}: cache {i} answered {rq(s.req)} without performing it in memory"
            if w is not None and e[DATA][:len(w)] != w:
                return f"cycle {e[CYC]}: cache {i} {rq(s.req)} returned {val(e, c)}, the shared memory holds {hexle(w)}"
    if tr[-1][A] == 0 and sc.get("final_flush"):
        for w in sorted(touched):
            if real.rd(w) != spec.rd(w):
                return f"at the end word {w * 4:#x} is {real.rd(w):#x} in memory; the program left {spec.rd(w):#x}"
    return None


# ---------------------------------------------------------------------------
def writebacks(sc, tr):
    """C08: a write-back carries exactly the words of its line written since they
    last reached memory, with their values; none is dropped or invented."""
    cf = cfgs(sc)
    dirty = [dict() for _ in cf]
    cut = [Cutter() for _ in cf]
    for e in tr:
        k, i = e[K], e[I]
        c = cf[i]
        if k == RST:
            dirty[i] = {}
        elif k == MREQ and e[B] == WRITE:
            if e[D] % c.line or e[E_]:
                return f"cycle {e[CYC]}: write-back is not of a whole aligned line: {show(e)}"
            base = e[D] >> 2
            want = {base + j for j in range(c.line // 4) if base + j in dirty[i]}
            got = {base + j for j in range(c.line // 4) if e[F_] >> j & 1}
            if got != want:
                return (f"cycle {e[CYC]}: write-back of line {e[D]:#x} carries words {sorted(w - base for w in got)}; "
                        f"written since last time: {sorted(w - base for w in want)}")
            if not got:
                return f"cycle {e[CYC]}: empty write-back of line {e[D]:#x}"
            for w in want:
                d = e[DATA][4 * (w - base):4 * (w - base) + 4]
                for o, v in dirty[i][w].items():
                    if d[o] != v:
                        return f"cycle {e[CYC]}: write-back of word {w * 4:#x} carries {hexle(d)}; byte {o} was written as {v:#x}"
                del dirty[i][w]
        s = cut[i].feed(e) if k in (REQ, RESP, MREQ, RST) else None
        if s is None:
            continue
        r = s.req
        if r[B] == WRITE:
            for j, v in enumerate(wdata(c, r)):
                dirty[i].setdefault((r[D] + j) >> 2, {})[(r[D] + j) & 3] = v
        elif r[B] == FLUSH and dirty[i]:
            return f"cycle {e[CYC]}: flush #{r[A]} answered but word {next(iter(dirty[i])) * 4:#x} was never written back"
    return None


# ---------------------------------------------------------------------------
def amos(sc, tr):
    """C09: an AMO is performed exactly once, by memory, on up-to-date data, and
    leaves no cached copy."""
    cf = cfgs(sc)
    n = len(cf)
    cut = [Cutter() for _ in cf]
    dirty = [set() for _ in cf]
    gone = [set() for _ in cf]               # lines that must be fetched anew
    last = {}                                # value memory returned, per cache
    for e in tr:
        k, i = e[K], e[I]
        c = cf[i]
        if k == RST:
            dirty[i], gone[i] = set(), set()
        elif k == MSRV and is_amo(e[B]):
            last[i] = e[DATA][:4]
        elif k == MREQ and e[B] == WRITE:
            for j in range(c.line // 4):
                if e[F_] >> j & 1:
                    dirty[i].discard((e[D] >> 2) + j)
        elif k == MREQ and is_amo(e[B]):
            r = cut[i].q[0] if cut[i].q else None
            if r is None or not is_amo(r[B]):
                return f"cycle {e[CYC]}: memory AMO while the oldest request is {rq(r) if r else 'none'}: {show(e)}"
            if (e[B], e[D], operand(e)) != (r[B], r[D], operand(r)) or e[E_] != 4 % c.line:
                return f"cycle {e[CYC]}: {rq(r)} data={operand(r):#x} forwarded as {show(e)}"
            base = e[D] // c.line * c.line >> 2
            for j in range(c.line // 4):
                if base + j in dirty[i]:
                    return f"cycle {e[CYC]}: {rq(r)} sent before written word {(base + j) * 4:#x} of its line"
        s = cut[i].feed(e) if k in (REQ, RESP, MREQ, RST) else None
        if s is None:
            continue
        r, t = s.req, s.req[B]
        ln = r[D] // c.line
        if is_amo(t):
            cnt = sum(is_amo(x[B]) for x in s.mreqs)
            if cnt != 1:
                return f"cycle {e[CYC]}: {rq(r)} answered after {cnt} memory AMOs"
            if e[DATA][:4] != last.get(i):
                return f"cycle {e[CYC]}: {rq(r)} returned {val(e, c)}, memory answered {hexle(last.get(i) or b'')}"
            if e[D]:
                return f"cycle {e[CYC]}: {rq(r)} reported a hit"
            gone[i].add(ln)
        elif any(is_amo(x[B]) for x in s.mreqs):
            return f"cycle {e[CYC]}: {rq(r)} caused a memory AMO"
        elif t in (READ, WRITE):
            if ln in gone[i]:
                if e[D] or not any(x[B] == READ and x[D] == ln * c.line for x in s.mreqs):
                    return f"cycle {e[CYC]}: {rq(r)} used a line an AMO had dropped"
                gone[i].discard(ln)
            if t == WRITE:
                m = nbytes(c, t, r[E_])
                dirty[i].update(range(r[D] >> 2, ((r[D] + m - 1) >> 2) + 1))
    return None


# ---------------------------------------------------------------------------
def _ops_cost(c, t, mreqs):
    """Generous cycles the cache itself may spend on one request, stalls and
    memory excluded."""
    if t == FLUSH:
        return 12 + 4 * c.nlines + 8 * len(mreqs)
    if t == INV:
        return 12 + 3 * c.nlines
    return 12 + 6 * len(mreqs)


def liveness(sc, tr):
    """C10: once a response is not blocked and memory answers, each request is
    answered within a bounded number of cycles, and the cache takes the next."""
    cf = cfgs(sc)
    end = tr[-1]
    if end[A] == 1:
        return f"no quiescence by cycle {end[CYC]}, long after the last fault: the system hangs"
    if end[A] == 2:
        return f"more than {end[CYC]} cycles of unbounded activity"
    for i, c in enumerate(cf):
        inst = sc["inst"][i]
        stalled = set()
        for key in ("rstall", "mstall"):
            for st, l in inst[key]:
                stalled.update(range(st, st + l))
        # cycles in which the cache waits for memory rather than itself
        wait = set()
        t0 = {}
        ev = [e for e in tr if e[I] == i]
        _, mcool, rcool, _ = inst.get("loop", (0, 0, 0, 0))
        for e in ev:
            if e[K] == MREQ:
                stalled.update(range(e[CYC] + 1, e[CYC] + 1 + mcool))
            elif e[K] == RESP:
                stalled.update(range(e[CYC] + 1, e[CYC] + 1 + rcool))
            if e[K] == MREQ:
                t0[e[A]] = e[CYC]
            elif e[K] == MRESP:
                wait.update(range(t0[e[A]], e[CYC] + 1))
        cut = Cutter()
        prev = 0
        free = None
        rdy = True
        for e in ev:
            if e[K] in (UNRST, RST):
                prev = e[CYC]
                if e[K] == UNRST:
                    free = e[CYC]
            if e[K] == RDY and free is not None:
                if e[CYC] - free > c.nlines + 8:
                    return f"cycle {e[CYC]}: cache {i} ready {e[CYC] - free} cycles after reset"
                prev = e[CYC]
            s = cut.feed(e)
            if s is None:
                continue
            a = max(s.req[CYC], prev)
            n = sum(1 for x in range(a, e[CYC]) if x not in stalled and x not in wait)
            b = _ops_cost(c, s.req[B], s.mreqs)
            if n > b:
                return f"cycle {e[CYC]}: cache {i} {rq(s.req)} took {n} unstalled cycles of its own (bound {b})"
            prev = e[CYC]
        if cut.q:
            return f"cache {i} {rq(cut.q[0])} accepted in cycle {cut.q[0][CYC]} was never answered"
    return None


# ---------------------------------------------------------------------------
def traffic(sc, tr):
    """C11: every memory request is one its request needs, well formed."""
    cf = cfgs(sc)
    cut = [Cutter() for _ in cf]
    out = [dict() for _ in cf]
    for e in tr:
        k, i = e[K], e[I]
        c = cf[i]
        if k == RST:
            out[i] = {}
        elif k == MRESP:
            out[i].pop(e[A], None)
        elif k == MREQ:
            if not cut[i].q:
                return f"cycle {e[CYC]}: memory request with no request outstanding: {show(e)}"
            if e[B] in (READ, WRITE) and (e[D] % c.line or e[E_]):
                return f"cycle {e[CYC]}: not a whole aligned line: {show(e)}"
            if not (e[B] in (READ, WRITE) or is_amo(e[B])):
                return f"cycle {e[CYC]}: unexpected kind of memory request: {show(e)}"
            out[i][e[A]] = e
            if sum(x[B] != WRITE for x in out[i].values()) > 1 or len(out[i]) > 2:
                return f"cycle {e[CYC]}: more requests outstanding than a blocking cache may have: {show(e)}"
        s = cut[i].feed(e) if k in (REQ, RESP, MREQ, RST) else None
        if s is None:
            continue
        r, t = s.req, s.req[B]
        rd = [x for x in s.mreqs if x[B] == READ]
        wr = [x for x in s.mreqs if x[B] == WRITE]
        am = [x for x in s.mreqs if is_amo(x[B])]
        bad = None
        if t in (READ, WRITE):
            if e[D]:
                if s.mreqs:
                    bad = "a hit reached memory"
            elif len(rd) != 1 or rd[0][D] != r[D] // c.line * c.line:
                bad = "a miss must fetch its own line exactly once"
            elif len(wr) > 1 or am:
                bad = "a miss may cause one write-back and nothing else"
            elif wr and s.mreqs.index(wr[0]) > s.mreqs.index(rd[0]):
                bad = "the victim must be written before the fetch"
            elif wr and wr[0][D] == rd[0][D]:
                bad = "a miss must not write back the line it fetches"
            elif wr and c.index(wr[0][D]) != c.index(r[D]):
                bad = "the victim is in another set"
            elif rd[0][C_] != r[C_]:
                bad = "the fetch does not carry the opaque of its request"
        elif is_amo(t):
            if len(am) != 1 or rd or len(wr) > 1:
                bad = "an AMO is one memory AMO after at most one write-back"
            elif wr and wr[0][D] != r[D] // c.line * c.line:
                bad = "an AMO may write back only its own line"
            elif am[0][C_] != r[C_]:
                bad = "the memory AMO does not carry the opaque of its request"
        elif t == INV and s.mreqs:
            bad = "an invalidation reached memory"
        elif t == FLUSH:
            if rd or am:
                bad = "a flush only writes"
            elif len({x[D] for x in wr}) != len(wr):
                bad = "a flush wrote a line twice"
            elif len(wr) > c.nlines:
                bad = "a flush wrote more lines than the cache holds"
        if bad:
            return f"cycle {e[CYC]}: {bad}: {rq(r)} hit={e[D]} did {[show(x).strip() for x in s.mreqs]}"
    return None


# ---------------------------------------------------------------------------
def handshake(sc, tr):
    """C12: a message is only sent to a receiver that is ready, and the cache
    never refuses a message it has to take."""
    text = {1: "sent a response while the master was not ready",
            2: "sent a memory request while memory was not ready",
            3: "was not ready for a memory response",
            4: "withdrew ready when the request was presented"}
    for e in tr:
        if e[K] == PROTO:
            return f"cycle {e[CYC]}: cache {e[I]} {text[e[A]]}"
    return None


# ---------------------------------------------------------------------------
def streams(tr, n):
    """Responses and memory requests per cache, without timing. The opaque of a
    flush's writes is not meaningful."""
    out = [[] for _ in range(n)]
    cut = [Cutter() for _ in range(n)]
    for e in tr:
        if e[K] == RESP:
            out[e[I]].append((RESP,) + e[A:])
        elif e[K] == MREQ:
            d = e[DATA]
            if e[B] == READ:
                d = b""
            elif e[B] == WRITE:
                d = b"".join(d[4 * j:4 * j + 4] for j in range(16) if e[F_] >> j & 1)
            elif is_amo(e[B]):
                d = d[:4]
            out[e[I]].append((MREQ, e[B], e[C_] if e[B] != WRITE else 0, e[D], e[E_],
                              e[F_] if e[B] == WRITE else 0, d))
    return out


def same_streams(x, y, n):
    a, b = streams(x, n), streams(y, n)
    for i in range(n):
        for j, (p, q) in enumerate(zip(a[i], b[i])):
            if p != q:
                return f"cache {i}, visible event {j} differs between two timings: {_sh(p)} / {_sh(q)}"
        if len(a[i]) != len(b[i]):
            return f"cache {i} produced {len(a[i])} visible events under one timing and {len(b[i])} under another"
    return None


def _sh(p):
    return ("RESP " if p[0] == RESP else "MREQ ") + " ".join(
        str(x) if not isinstance(x, bytes) else hexle(x.rstrip(b"\0") or b"\0") for x in p[1:])


def first_difference(x, y):
    for p, q in zip(x, y):
        if p != q:
            return f"cycle {min(p[CYC], q[CYC])}: {show(p).strip()} / {show(q).strip()}"
    if len(x) != len(y):
        return f"{len(x)} events / {len(y)} events"
    return None


# ---------------------------------------------------------------------------
def visible(e):
    """What a peer can see of an event: unused fields are dropped."""
    k = e[K]
    if k == MREQ:
        d = e[DATA]
        if e[B] == READ:
            d = b""
        elif e[B] == WRITE:
            d = b"".join(d[4 * j:4 * j + 4] for j in range(16) if e[F_] >> j & 1)
        else:
            d = d[:4]
        return (k, e[I], e[CYC], e[B], e[C_] if e[B] != WRITE else 0, e[D], e[E_], e[F_] if e[B] == WRITE else 0, d)
    if k == MRESP:
        return e[:4]
    if k in (REQ, RESP, RDY, PROTO, RST, UNRST):
        return e
    return None


def same_visible(sc, x, y):
    """C21: bits no one may look at change nothing, not even a cycle."""
    a = [v for v in map(visible, x) if v]
    b = [v for v in map(visible, y) if v]
    for p, q in zip(a, b):
        if p != q:
            return (f"cycle {min(p[2], q[2])}: behaviour depends on don't-care inputs or power-up contents: "
                    f"{_vs(p)} / {_vs(q)}")
    if len(a) != len(b):
        return f"behaviour depends on don't-care inputs or power-up contents: {len(a)} / {len(b)} visible events"
    return None


def _vs(p):
    if p[0] == MRESP:
        return f"{p[2]:6d} MRESP m{p[3]}"
    if p[0] == MREQ:
        p = (p[0], p[1], p[2], 0) + p[3:]
    return show(p).strip()


# ---------------------------------------------------------------------------
def timing_bounds(sc, tr):
    """C18: with nothing stalled and memory answering in the next cycle, the
    documented pipeline latencies hold as upper bounds."""
    c = cfgs(sc)[0]
    cut, m, dirty = Cutter(), Residency(c), set()
    prev = None
    for e in tr:
        if e[K] == RDY and e[CYC] > c.nlines + 8 + 2:
            return f"cycle {e[CYC]}: not ready within {c.nlines + 8} cycles of reset"
        s = cut.feed(e)
        if s is None:
            continue
        r, t = s.req, s.req[B]
        h, ops = m.access(r)
        wb = sum(o[0] == "wr" for o in ops)
        ws = range(0)
        if t in (READ, WRITE):
            ws = range(r[D] >> 2, ((r[D] + nbytes(c, t, r[E_]) - 1) >> 2) + 1)
        clean_hit = t == WRITE and h and not all(w in dirty for w in ws)
        if t in (READ, WRITE):
            b = 2 if h else 7 + wb
        elif is_amo(t):
            b = 6 + wb
        elif t == INV:
            b = c.nlines + 3
        else:
            b = c.nlines + 3 + 4 * wb
        took = e[CYC] - r[CYC]
        if took > b:
            return (f"cycle {e[CYC]}: {rq(r)} ({'hit' if h else 'no hit'}, {wb} write-backs) was answered after {took} "
                    f"cycles with nothing stalled; the pipeline takes {b}")
        if prev:
            pr, pe, ph, pclean = prev
            if ph:
                lim = 2 if pclean else 1
                if r[CYC] - pr[CYC] > lim:
                    return (f"cycle {r[CYC]}: {rq(r)} was accepted {r[CYC] - pr[CYC]} cycles after the "
                            f"hit #{pr[A]} before it; hits stream at one per {lim} cycle(s)")
            elif r[CYC] > pe[CYC]:
                return f"cycle {r[CYC]}: {rq(r)} was accepted only {r[CYC] - pe[CYC]} cycles after request #{pr[A]} was answered"
        prev = (r, e, h, clean_hit)
        for o in ops:
            if o[0] == "wr":
                dirty -= {(o[1] >> 2) + j for j in range(c.line // 4)}
        if t == WRITE:
            dirty |= set(ws)
    return None


# ---------------------------------------------------------------------------
def lanes(sc, tr):
    """C20: a write changes exactly the bytes it names, wherever they are seen
    next; a read returns exactly the bytes it names."""
    c = cfgs(sc)[0]
    m = seq_memory(sc, tr)
    if m:
        return m
    flat, real, cut = Flat(sc), RealMemory(sc), Cutter()
    for e in tr:
        real.feed(e)
        s = cut.feed(e)
        if s is None:
            continue
        r, t = s.req, s.req[B]
        if t == WRITE:
            flat.put(r[D], wdata(c, r))
        elif is_amo(t):
            flat.op(t, r[D], 4, 0, r[DATA][:4], c.line)
        elif t == READ:
            n = nbytes(c, t, r[E_])
            if any(e[DATA][n:c.dbytes]):
                return f"cycle {e[CYC]}: {rq(r)} returned more than {n} bytes: {val(e, c)}"
        elif t == FLUSH:
            for w in sorted(set(flat.w) | set(real.w)):
                if flat.rd(w) != real.rd(w):
                    return (f"cycle {e[CYC]}: after flush #{r[A]} word {w * 4:#x} is {real.rd(w):#x} in memory, "
                            f"the writes so far make it {flat.rd(w):#x}")
    return None


# ---------------------------------------------------------------------------
def linearizable(sc, tr):
    """C17: the AMOs of all caches on a word (and the plain reads by a cache whose last
    use of the line was an AMO, which left no copy there) form one total order that
    agrees with the values returned, with real time, and with what is read at the end.
    Judged from the clients' history alone."""
    cf = cfgs(sc)
    init = Flat(sc)
    q = [[] for _ in cf]
    ops, finals = {}, []
    last_phase = [max((r[6] for r in s["reqs"]), default=0) for s in sc["inst"]]
    dropped, fresh = [set() for _ in cf], set()
    racing = {r[3] >> 2 for s in sc["inst"] for r in s["reqs"] if is_amo(r[1])}
    for e in tr:
        i = e[I]
        if e[K] == REQ:
            q[i].append(e)
            l = e[D] // cf[i].line
            if is_amo(e[B]):
                dropped[i].add(l)
            elif e[B] in (READ, WRITE):
                if e[B] == READ and e[D] >> 2 in racing and l in dropped[i] and nbytes(cf[i], READ, e[E_]) == 4:
                    fresh.add((i, e[A]))
                dropped[i].discard(l)
        elif e[K] == RESP and q[i]:
            r = q[i].pop(0)
            v = int.from_bytes(e[DATA][:4], "little")
            if is_amo(r[B]):
                ops.setdefault(r[D] >> 2, []).append((r[CYC], e[CYC], r[B], operand(r), v, i, r[A]))
            elif (i, r[A]) in fresh and sc["inst"][i]["reqs"][r[A]][6] == 0:
                ops.setdefault(r[D] >> 2, []).append((r[CYC], e[CYC], READ, 0, v, i, r[A]))
            elif r[B] == READ and sc["inst"][i]["reqs"][r[A]][6] == last_phase[i] == 3:
                finals.append((r, v, i, e))
    for i, x in enumerate(q):
        for r in x:
            if is_amo(r[B]):
                ops.setdefault(r[D] >> 2, []).append((r[CYC], 1 << 60, r[B], operand(r), None, i, r[A]))
    for w, o in ops.items():
        want = None
        for r, v, i, e in finals:
            if r[D] >> 2 == w and nbytes(cf[i], READ, r[E_]) == 4:
                if want is not None and want[0] != v:
                    return f"word {w * 4:#x}: caches read different final values {want[0]:#x} (cache {want[1]}) and {v:#x} (cache {i})"
                want = (v, i)
        n = len(o)
        seen, todo, steps, ok = set(), [(frozenset(range(n)), init.rd(w))], 0, False
        best = n
        while todo and steps < 20000:
            rest, v = todo.pop()
            if (rest, v) in seen:
                continue
            seen.add((rest, v))
            steps += 1
            best = min(best, len(rest))
            if all(o[k][4] is None for k in rest) and (want is None or want[0] == v):
                ok = True
                break
            lim = min((o[k][1] for k in rest), default=0)
            for k in rest:
                a = o[k]
                if a[0] < lim and (a[4] is None or a[4] == v):
                    todo.append((rest - {k}, v if a[2] == READ else amo(a[2], v, a[3])))
        if not ok and steps < 20000:
            h = "; ".join(f"cache {a[5]} #{a[6]} {TNAME[a[2]]}({a[3]:#x}) [{a[0]},{a[1]}] -> {a[4]:#x}"
                          for a in sorted(o)[:8] if a[4] is not None)
            f = f", finally read as {want[0]:#x}" if want else ""
            return (f"word {w * 4:#x} (initially {init.rd(w):#x}{f}): no order of its {n} AMOs explains the values "
                    f"returned ({n - best} can be ordered): {h}")
    return None


# --- line traces ------------------------------------------------------------
KIND = ("rd", "wr", "in", "ad", "an", "or", "sw", "mi", "mu", "mx", "xu", "xo", "lr", "sc", "iv", "fl")


class TraceError(Exception):
    pass


class Trace:
    """Prints the line trace at every level in every cycle and compares what it says
    with the ports."""

    def __init__(self, sc):
        self.cfgs = [Cfg(*c) for c in sc["cfgs"]]

    def show(self, i, cyc, m, *lv):
        try:
            t = m.line_trace(*lv)
        except Exception as x:
            raise TraceError(f"cache {i} cycle {cyc if cyc >= 0 else ~cyc}: line_trace{lv} fails: "
                             f"{type(x).__name__}: {' '.join(str(x).split())[:200]}")
        if not isinstance(t, str) or "\n" in t:
            raise TraceError(f"cache {i} cycle {cyc}: line_trace{lv} is not one line of text: {t!r}")
        return t

    def watch(self, i, cyc, m):
        other = ((0,), (1,), ())[cyc % 3]
        for lv in ((other, (2,)) if cyc >= 0 else (other,)):
            t = self.show(i, cyc, m, *lv)
            if lv == (0,) or cyc < 0:
                continue
            if ("#(" in t) != (not m.mem_minion_ifc.req.rdy):
                raise TraceError(f"cache {i} cycle {cyc}: the cache is "
                                 f"{'' if m.mem_minion_ifc.req.rdy else 'not '}ready, its line trace says otherwise: {t!r}")
            part = t.split("|")
            if lv == (1,):
                for at, en in ((0, m.mem_master_ifc.resp.en), (-1, m.mem_master_ifc.req.en)):
                    if (part[at].strip() == ">") != bool(en):
                        raise TraceError(f"cache {i} cycle {cyc}: a memory {('response', 'request')[at]} "
                                         f"{'moves' if en else 'does not move'}, the stage trace is {t!r}")
            if m.mem_minion_ifc.req.en and not m.reset:
                ty = int(m.mem_minion_ifc.req.msg.type_)
                kind = {READ: "rd", WRITE: "wr", INIT: "in", INV: "iv0", FLUSH: "fl0"}.get(ty, "amo")
                if len(part) < 4 or part[1].split()[-1][-len(kind):] != kind:
                    raise TraceError(f"cache {i} cycle {cyc}: a {TNAME[ty]} is accepted, the line trace is {t!r}")
            if lv == (1,):
                continue
            want = []
            q = m.mem_master_ifc.resp.msg
            if m.mem_master_ifc.resp.en:
                want.append(f"{KIND[int(q.type_)]}:{q.opaque}:{q.test}:{q.len}:{q.wr_mask}:" + (str(q.data) if q.type_ != WRITE else " "))
            q = m.mem_master_ifc.req.msg
            if m.mem_master_ifc.req.en:
                want.append(f"{KIND[int(q.type_)]}:{q.opaque}:{q.addr}:{q.len}:{q.wr_mask}:" + (str(q.data) if q.type_ != READ else " "))
            for w in want:
                if w not in t:
                    raise TraceError(f"cache {i} cycle {cyc}: memory message '{w}' moves, but the line trace is {t!r}")
            n = t.count(":")
            if n != 5 * len(want):
                raise TraceError(f"cache {i} cycle {cyc}: {len(want)} memory messages move, but the line trace is {t!r}")
