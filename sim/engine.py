"""Run a scenario (plain JSON data) on one of two interchangeable engines and
return its event trace.

  * vl : caches translated from the working tree and compiled (native speed)
  * py : the PyMTL model itself, elaborated from the working tree

A scenario fixes everything; both engines must produce the same trace.
"""
import contextlib
import ctypes
import struct

from cfg import Cfg, mk_cache, mk_types, layout, FIELDS

REQ, RESP, MREQ, MSRV, MRESP, RST, UNRST, EXT, PROTO, END, ABORT, RDY = range(1, 13)
EVNAME = [None, "REQ", "RESP", "MREQ", "MSRV", "MRESP", "RST", "UNRST", "EXT", "PROTO", "END", "ABORT", "RDY"]
_F = ("type_", "opaque", "addr", "len", "test", "wr_mask", "data")
_EV = struct.Struct("<9q64s")
CAP = 60000
M64 = (1 << 64) - 1

READ, WRITE, INIT = 0, 1, 2
AMO_LO, AMO_HI = 3, 11
INV, FLUSH = 14, 15
TNAME = {0: "rd", 1: "wr", 2: "in", 3: "add", 4: "and", 5: "or", 6: "swap", 7: "min", 8: "minu",
         9: "max", 10: "maxu", 11: "xor", 14: "inv", 15: "flush"}


def s64(x):
    x &= M64
    return x - (1 << 64) if x >> 63 else x


def mix(z):
    z = (z + 0x9E3779B97F4A7C15) & M64
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
    return z ^ (z >> 31)


def mix2(a, b):
    return mix(a ^ mix(b))


_lay_cache = {}


def layouts(c):
    k = c.key()
    if k not in _lay_cache:
        _lay_cache[k] = [layout(T) for T in mk_types(c)]
    return _lay_cache[k]


def encode(sc):
    b = [len(sc["inst"]), s64(sc["mem_seed"]), s64(sc["xseed"]), sc["max_cycles"], sc["drain"],
         sc.get("mem_at_reset", 0), sc.get("late", 0), len(sc.get("ext", ()))]
    for i, s in enumerate(sc["inst"]):
        c = Cfg(*sc["cfgs"][i])
        for l in layouts(c):
            for f in _F:
                b += l.get(f, (0, 0))
            b.append(l["_n"])
        b += [c.line, c.dbytes, s64(s["noise"])]
        b += s.get("loop", (0, 0, 0, 0))            # mdepth, mcool, rcool, pdepth
        b.append(len(s["reqs"]))
        for r in s["reqs"]:
            b += [r[0], r[1], r[2], r[3], r[4], r[6]]
            d = r[5]
            b += [s64(d), s64(d >> 64), s64(d >> 128), s64(d >> 192)]
        for k in ("rstall", "mstall", "lat"):
            b.append(len(s[k]))
            for x in s[k]:
                b += x
        b.append(len(s["resets"]))
        for x in s["resets"]:
            b += x
    for e in sc.get("ext", ()):
        b += e
    return b


class VlEngine:
    """Compiled engine over a Built (see build.py)."""
    name = "verilator"

    def __init__(self, built):
        self.b = built
        self.lib = ctypes.CDLL(built.root + "/driver.so")
        self.lib.api_load.restype = ctypes.c_void_p
        self.lib.api_load.argtypes = [ctypes.c_char_p]
        self.lib.sim_run.restype = ctypes.c_int64
        self.apis = {}
        self.buf = ctypes.create_string_buffer(CAP * _EV.size)

    def api(self, key):
        if key not in self.apis:
            a = self.lib.api_load(self.b.libs[key].encode())
            if not a:
                raise RuntimeError("cannot load " + key)
            self.apis[key] = a
        return self.apis[key]

    def run(self, sc, prefix=""):
        n = len(sc["cfgs"])
        apis = (ctypes.c_void_p * n)(*[self.api(prefix + Cfg(*c).key()) for c in sc["cfgs"]])
        blob = encode(sc)
        arr = (ctypes.c_int64 * len(blob))(*blob)
        k = self.lib.sim_run(apis, arr, self.buf, ctypes.c_int64(CAP))
        return list(_EV.iter_unpack(ctypes.string_at(self.buf, k * _EV.size)))


# ---------------------------------------------------------------------------
# PyMTL engine: the same simulator loop, stepping the PyMTL model itself.
# ---------------------------------------------------------------------------

def amo(t, m, a):
    sm = m - (1 << 32) if m >> 31 else m
    sa = a - (1 << 32) if a >> 31 else a
    return {3: (m + a) & 0xffffffff, 4: m & a, 5: m | a, 6: a, 7: m if sm < sa else a,
            8: min(m, a), 9: m if sm > sa else a, 10: max(m, a), 11: m ^ a}[t]


class Memory:
    def __init__(self, seed):
        self.seed = seed & M64
        self.w = {}

    def rd(self, wa):
        v = self.w.get(wa)
        return mix2(self.seed, wa) & 0xffffffff if v is None else v

    def wr(self, wa, v):
        self.w[wa] = v & 0xffffffff

    def bytes(self, a, n):
        out = bytearray()
        if a & 3 == 0 and n & 3 == 0:
            for k in range(a >> 2, (a + n) >> 2):
                out += self.rd(k).to_bytes(4, "little")
            return bytes(out)
        for k in range(a, a + n):
            out.append(self.rd(k >> 2) >> (8 * (k & 3)) & 255)
        return bytes(out)

    def wbytes(self, a, d):
        for k, v in enumerate(d):
            x = a + k
            s = 8 * (x & 3)
            self.wr(x >> 2, (self.rd(x >> 2) & ~(0xff << s)) | (v << s))

    def op(self, t, addr, len_, mask, data, lineb):
        """Perform one memory request; returns response data (bytes)."""
        if t == READ:
            return self.bytes(addr, len_ or lineb)
        if t == WRITE:
            for j in range(lineb // 4):
                if mask >> j & 1:
                    self.wbytes(addr + 4 * j, data[4 * j:4 * j + 4])
            return b""
        if AMO_LO <= t <= AMO_HI:
            old = self.rd(addr >> 2)
            self.wr(addr >> 2, amo(t, old, int.from_bytes(data[:4], "little")))
            return old.to_bytes(4, "little")
        return b""


def _pad(b):
    return bytes(b) + b"\0" * (64 - len(b))


class DutError(Exception):
    """A configuration that works on the unchanged tree cannot be generated."""


class _PyInst:
    pass


@contextlib.contextmanager
def swapped(prefix):
    """What build.BEFORE does to a translated cache, for the PyMTL model."""
    import sys
    old, new, name = None, None, None
    import blocking_cache.BlockingCacheRTL                              # noqa: F401
    if prefix == "wild_":
        import wildsram
        import sram.SramPRTL as m
        old, new, name = m.SramPRTL, wildsram.WildSram, "SramPRTL"
    elif prefix == "plain_":
        import blocking_cache.units.muxes as m
        old, new, name = m.FastDataSelectMux, m.DataSelectMux, "FastDataSelectMux"
    mods = [x for x in list(sys.modules.values()) if old and getattr(x, name, None) is old]
    for x in mods:
        setattr(x, name, new)
    try:
        yield
    finally:
        for x in mods:
            setattr(x, name, old)


class PyEngine:
    """Steps the PyMTL RTL model; same protocol as driver.cpp."""
    name = "pymtl"

    def _mk(self, c, prefix=""):
        from pymtl3 import DefaultPassGroup
        from pymtl3.passes.sim.PrepareSimPass import PrepareSimPass
        try:
            with swapped(prefix):
                m = mk_cache(c)
                m.elaborate()
            m.apply(DefaultPassGroup())
            m._edge = PrepareSimPass(print_line_trace=False).collect_ff_funcs(m)
        except Exception as x:
            raise DutError(f"cache {prefix}{c.key()} cannot be generated: {type(x).__name__}: {' '.join(str(x).split())[:300]}")
        return m

    def run(self, sc, watch=None, fast=False, prefix=""):
        """watch(i, cyc, model) is called in every cycle once its inputs are final, and
        again after the clock edge (cyc < 0). fast: take the clock edge without the two
        evaluations of the combinational blocks that sim_tick adds around it."""
        import warnings
        warnings.filterwarnings("ignore")
        o = []

        def add(kind, inst, cyc, a=0, b=0, c=0, d=0, e=0, f=0, data=b""):
            o.append((kind, inst, cyc, a, b, c, d, e, f, _pad(data)))

        mem = Memory(sc["mem_seed"])
        maxc, drain = sc["max_cycles"], sc["drain"]
        I = []
        phase = {}
        for i, s in enumerate(sc["inst"]):
            x = _PyInst()
            x.c = c = Cfg(*sc["cfgs"][i])
            x.T = mk_types(c)
            x.lay = layouts(c)
            x.m = self._mk(c, prefix)
            x.reqs = s["reqs"]
            for r in x.reqs:
                phase[r[6]] = phase.get(r[6], 0) + 1
            x.rst, x.mst = set(), set()
            for w, dst in ((s["rstall"], x.rst), (s["mstall"], x.mst)):
                for st, l in w:
                    dst.update(range(st, st + l))
            x.lat, x.resets, x.noise = s["lat"], s["resets"], s["noise"] & M64
            x.next, x.nres, x.last_accept, x.inflight = 0, 0, -1, []
            x.mq, x.rq, x.mcount, x.last_srv, x.last_rsp = [], [], 0, -1, -1
            x.rst_until, x.in_reset, x.rdy_seen = 2, True, False
            x.mdepth, x.mcool, x.rcool, x.pdepth = s.get("loop", (0, 0, 0, 0))
            x.mfree = x.rfree = 0
            x.acc = {}
            I.append(x)
            add(RST, i, 0, 1)
        nph = max(phase) + 1 if phase else 0
        cur = 0

        def adv():
            nonlocal cur
            while cur < nph and phase.get(cur, 0) == 0:
                cur += 1
        adv()
        ext = [list(e) + [-1, False] for e in sc.get("ext", ())]

        def serve(i, cyc, m):
            res = mem.op(m[1], m[3], m[4], m[5], m[6], I[i].c.line)
            add(MSRV, i, cyc, *m[:6], data=m[6] if m[1] == WRITE else res)
            return res

        def noise(n, seed, i, cyc, port):
            v = 0
            if seed:
                for k in range((n + 31) // 32):
                    v |= (mix2(seed ^ (i << 56) ^ (port << 48), cyc * 64 + k) & 0xffffffff) << (32 * k)
            return v & ((1 << n) - 1)

        idle, reason, cyc = -1, 1, 0
        while cyc < maxc:
            for e in ext:
                if not e[6] and e[5] < 0 and (e[1] < 0 or e[1] in I[e[0]].acc):
                    e[5] = (0 if e[1] < 0 else I[e[0]].acc[e[1]]) + e[2]
                if not e[6] and e[5] >= 0 and cyc >= e[5]:
                    e[6] = True
                    mem.wr(e[3] >> 2, e[4])
                    add(EXT, 0, cyc, e[3], e[4])
            for i, x in enumerate(I):
                if x.in_reset and cyc >= x.rst_until:
                    x.in_reset, x.rdy_seen = False, False
                    x.rq = []
                    add(UNRST, i, cyc)
                if not x.in_reset and x.nres < len(x.resets):
                    af, de, cy = x.resets[x.nres]
                    trig = cyc >= de if af < 0 else (af in x.acc and cyc >= x.acc[af] + de)
                    if trig:
                        x.nres += 1
                        x.in_reset, x.rst_until = True, cyc + max(1, cy)
                        add(RST, i, cyc, 0)
                        for k in x.inflight:
                            add(ABORT, i, cyc, k)
                            phase[x.reqs[k][6]] -= 1
                        x.inflight = []
                        adv()
                        if not sc.get("late", 0):
                            x.rq = []
                        if sc.get("mem_at_reset", 0):
                            for m in x.mq:
                                res = serve(i, cyc, m)
                                if sc.get("late", 0):
                                    x.rq.append((m, res, cyc + m[8]))
                        x.mq = []
            for i, x in enumerate(I):
                while x.mq and x.mq[0][7] <= cyc:
                    m = x.mq.pop(0)
                    res = serve(i, cyc, m)
                    at = cyc + m[8]
                    if at <= x.last_rsp:
                        at = x.last_rsp + 1
                    x.last_rsp = at
                    x.rq.append((m, res, at))
            busy = False
            for i, x in enumerate(I):
                t = x.m
                mi, ma = t.mem_minion_ifc, t.mem_master_ifc
                CReq, CResp, MReq, MResp = x.T
                mr = None
                rr = cyc not in x.rst and cyc >= x.rfree
                mrdy = (cyc not in x.mst and cyc >= x.mfree
                        and (not x.mdepth or len(x.mq) + len(x.rq) < x.mdepth))
                if x.rq and x.rq[0][2] <= cyc:
                    mr = x.rq[0]
                v1 = noise(x.lay[0]["_n"], x.noise, i, cyc, 1)
                v2 = noise(x.lay[3]["_n"], x.noise, i, cyc, 2)
                msg1 = CReq.from_bits(_bits(x.lay[0]["_n"], v1))
                msg2 = MResp.from_bits(_bits(x.lay[3]["_n"], v2))
                if mr:
                    m = mr[0]
                    msg2.type_ @= m[1]
                    msg2.opaque @= m[2]
                    if not x.noise:
                        msg2.len @= 0 if m[1] == WRITE else m[4]
                        msg2.wr_mask @= m[5] if m[1] == READ else 0
                    if not (x.noise and m[1] == WRITE):
                        msg2.data @= int.from_bytes(mr[1], "little")
                t.reset @= int(x.in_reset)
                mi.req.en @= 0
                mi.req.msg @= msg1
                mi.resp.rdy @= int(rr)
                ma.req.rdy @= int(mrdy)
                ma.resp.en @= int(mr is not None)
                ma.resp.msg @= msg2
                t.sim_eval_combinational()
                issue = False
                if not x.in_reset and mi.req.rdy:
                    if not x.rdy_seen:
                        x.rdy_seen = True
                        add(RDY, i, cyc)
                    if x.next < len(x.reqs):
                        r = x.reqs[x.next]
                        if (not x.pdepth or len(x.inflight) < x.pdepth) and r[6] <= cur and cyc >= x.last_accept + 1 + r[0]:
                            issue = True
                            mi.req.msg @= CReq(r[1], r[2], r[3], r[4], r[5])
                            mi.req.en @= 1
                            t.sim_eval_combinational()
                            if not mi.req.rdy:
                                add(PROTO, i, cyc, 4)
                f1, f2, f3 = int(mi.resp.en), int(ma.req.en), int(ma.resp.rdy)
                if watch:
                    watch(i, cyc, t)
                if not x.in_reset:
                    if mr:
                        m = mr[0]
                        if not f3:
                            add(PROTO, i, cyc, 3)
                        add(MRESP, i, cyc, m[0], m[1], m[2], m[3], data=mr[1])
                        x.rq.pop(0)
                    if issue:
                        r = x.reqs[x.next]
                        add(REQ, i, cyc, x.next, r[1], r[2], r[3], r[4],
                            data=(r[5] & ((1 << 256) - 1)).to_bytes(32, "little"))
                        x.acc[x.next] = cyc
                        x.last_accept = cyc
                        x.inflight.append(x.next)
                        x.next += 1
                    if f1:
                        if not rr:
                            add(PROTO, i, cyc, 1)
                        x.rfree = cyc + 1 + x.rcool
                        idx = -1
                        if x.inflight:
                            idx = x.inflight.pop(0)
                            phase[x.reqs[idx][6]] -= 1
                        q = mi.resp.msg
                        add(RESP, i, cyc, idx, int(q.type_), int(q.opaque), int(q.test), int(q.len),
                            data=int(q.data).to_bytes(x.c.dbytes, "little"))
                    if f2:
                        if not mrdy:
                            add(PROTO, i, cyc, 2)
                        x.mfree = cyc + 1 + x.mcool
                        q = ma.req.msg
                        lat = x.lat[x.mcount % len(x.lat)] if x.lat else (0, 0)
                        srv = max(cyc + 1 + lat[0], x.last_srv)
                        x.last_srv = srv
                        m = (x.mcount, int(q.type_), int(q.opaque), int(q.addr), int(q.len), int(q.wr_mask),
                             int(q.data).to_bytes(x.c.line, "little"), srv, lat[1])
                        x.mcount += 1
                        x.mq.append(m)
                        add(MREQ, i, cyc, *m[:6], data=m[6])
                elif mr:
                    x.rq.pop(0)                     # an answer that arrives in reset is lost
                if fast:
                    for f in t._edge:
                        f()
                    if watch:
                        t.sim_eval_combinational()
                else:
                    t.sim_tick()
                if watch:
                    watch(i, ~cyc, t)
                if (x.in_reset or x.next < len(x.reqs) or x.inflight or x.mq or x.rq or f1 or f2
                        or not x.rdy_seen):
                    busy = True
            adv()
            if busy:
                idle = -1
            else:
                if idle < 0:
                    idle = cyc
                if cyc - idle >= drain:
                    reason = 0
                    break
            cyc += 1
        add(END, 0, cyc, reason)
        return o


def _bits(n, v):
    from pymtl3 import mk_bits
    return mk_bits(n)(v)


def show(ev):
    k, i, cyc = ev[:3]
    n = EVNAME[k]
    d = int.from_bytes(ev[9], "little")
    a, b, c, e, f, g = ev[3:9]
    if k == REQ:
        return f"{cyc:6d} c{i} REQ   #{a} {TNAME.get(b, b)} opq={c:x} addr={e:#x} len={f} data={d:#x}"
    if k == RESP:
        return f"{cyc:6d} c{i} RESP  #{a} {TNAME.get(b, b)} opq={c:x} hit={e} len={f} data={d:#x}"
    if k in (MREQ, MSRV):
        return f"{cyc:6d} c{i} {n:5s} m{a} {TNAME.get(b, b)} opq={c:x} addr={e:#x} len={f} mask={g:#x} data={d:#x}"
    if k == MRESP:
        return f"{cyc:6d} c{i} MRESP m{a} {TNAME.get(b, b)} opq={c:x} addr={e:#x} data={d:#x}"
    if k == EXT:
        return f"{cyc:6d} -- EXT   addr={a:#x} data={b:#x}"
    return f"{cyc:6d} c{i} {n} {a}"
