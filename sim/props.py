"""The properties: how a scenario is made and how it is judged.

A case is plain JSON: {"sc": scenario, ...}. judge(case, eng) returns
(violation text or None, [traces]). Everything random is already in the case.
"""
import copy
import random

import coh
import gen
import oracles as O
from cfg import Cfg
from engine import (REQ, RESP, MREQ, MSRV, MRESP, RST, UNRST, EXT, ABORT, END,
                    READ, WRITE, INIT, INV, FLUSH)
from gen import Prof, scenario

REG = {}


class Prop:
    id = None
    quick = 12000                   # scenarios
    thorough = 400000
    qcap, tcap = 60, 1500           # seconds of simulation at most
    py = 8                          # scenarios also run on the PyMTL model (quick)
    level = "exploration"
    oracle = None
    multi = False

    def units(self):
        return gen.ALL

    def deepen(self, seed):
        """More configurations for the thorough tier."""
        gen.extend(seed, 10)

    def make(self, rng):
        return {"sc": scenario(rng, self.prof(rng))}

    def prof(self, rng):
        return Prof()

    def judge(self, case, eng):
        tr = eng.run(case["sc"])
        return type(self).oracle(case["sc"], tr), [tr]

    def legal(self, case):
        return "sc" not in case or gen.whole(case["sc"])

    # what makes a run count as non-trivial for this property
    rule = "at least one response was produced"

    def nontrivial(self, case, trs):
        return any(e[0] == RESP for e in trs[0])


def prop(cls):
    REG[cls.id] = cls()
    return cls


def _segs(sc, tr, i=0):
    cut = O.Cutter()
    for e in tr:
        if e[1] == i or e[0] == EXT:
            s = cut.feed(e)
            if s:
                yield s


def _some(sc, tr, f):
    return any(f(s) for i in range(len(sc["cfgs"])) for s in _segs(sc, tr, i))


@prop
class C01(Prop):
    id = "C01"
    oracle = staticmethod(O.seq_memory)
    rule = "a read or AMO was answered after an earlier write to the same line, with a miss in between"

    def prof(self, rng):
        return Prof(dw=rng.choice([0, 0, .3]), long=.03)

    def nontrivial(self, case, trs):
        c = Cfg(*case["sc"]["cfgs"][0])
        st = {}
        for s in _segs(case["sc"], trs[0]):
            ln, t = s.req[6] // c.line, s.req[4]
            if t == WRITE:
                st[ln] = 1
            elif s.mreqs:
                for x in st:
                    st[x] = 2
            if t not in (WRITE, INV, FLUSH) and st.get(ln) == 2:
                return True
        return False


@prop
class C02(Prop):
    id = "C02"
    oracle = staticmethod(O.responses)
    rule = "two requests were outstanding at once, or a response was held back by the master"

    def make(self, rng):
        if rng.random() < .15:
            return {"sc": coh.program(rng)}
        return {"sc": scenario(rng, Prof(resets=rng.choice([0, 0, 0, 2]), dw=.1, wide=True))}

    def nontrivial(self, case, trs):
        n = 0
        for e in trs[0]:
            if e[0] == REQ:
                n += 1
                if n > 1:
                    return True
            elif e[0] == RESP or e[0] == ABORT:
                n -= 1
        return bool(case["sc"]["inst"][0]["rstall"])


@prop
class C03(Prop):
    id = "C03"
    oracle = staticmethod(O.hit_flags)
    rule = "a line was evicted or dropped and later looked up again"

    def prof(self, rng):
        return Prof(ops=dict(rd=5, wr=4, amo=.7, inv=.25, flush=.3), resets=rng.choice([0, 0, 0, 1]))

    def nontrivial(self, case, trs):
        seen = set()
        c = Cfg(*case["sc"]["cfgs"][0])
        for s in _segs(case["sc"], trs[0]):
            ln = s.req[6] // c.line
            if s.req[4] in (READ, WRITE):
                if ln in seen and not s.resp[6]:
                    return True
                seen.add(ln)
        return False


@prop
class C04(Prop):
    id = "C04"
    oracle = staticmethod(O.reset_clean)
    rule = "a reset hit a cache with a request in flight, a refill outstanding or an initialisation under way"

    def prof(self, rng):
        return Prof(resets=rng.choice([1, 1, 2, 3]), n=(4, 50), ops=dict(rd=4, wr=5, amo=.7, inv=.4, flush=.8))

    def nontrivial(self, case, trs):
        ready = True
        for e in trs[0]:
            if e[0] == ABORT:
                return True
            if e[0] == RST:
                if not ready:
                    return True
                ready = False
            elif e[0] == REQ:
                ready = True
        return False


@prop
class C05(Prop):
    id = "C05"
    oracle = staticmethod(O.flush_durable)
    rule = "a flush wrote back at least one line"

    def prof(self, rng):
        return Prof(ops=dict(rd=3, wr=5, amo=.5, inv=.4, flush=1.2), resets=rng.choice([0, 0, 1, 2]), long=.01,
                    dw=rng.choice([0, .2]))

    def nontrivial(self, case, trs):
        return _some(case["sc"], trs[0], lambda s: s.req[4] == FLUSH and s.mreqs)


@prop
class C06(Prop):
    id = "C06"
    oracle = staticmethod(O.fresh)
    rule = "memory changed behind the cache, which was then invalidated and read again"

    def prof(self, rng):
        return Prof(ops=dict(rd=6, wr=3, amo=.5, inv=1.2, flush=.5), ext=rng.choice([2, 6, 12]), long=.01)

    def nontrivial(self, case, trs):
        k = 0
        for e in trs[0]:
            if k == 0 and e[0] == EXT:
                k = 1
            elif k == 1 and e[0] == RESP and e[4] == INV:
                k = 2
            elif k == 2 and e[0] == RESP and e[4] == READ:
                return True
        return False


@prop
class C07(Prop):
    id = "C07"
    oracle = staticmethod(O.coherence)
    quick = 6000
    rule = "two caches touched the same line, one of them writing"

    def make(self, rng):
        return {"sc": coh.program(rng)}

    def legal(self, case):
        return coh.legal(case["sc"])

    def nontrivial(self, case, trs):
        sc = case["sc"]
        use, wr = {}, set()
        for i, s in enumerate(sc["inst"]):
            for r in s["reqs"]:
                if r[1] < INV:
                    use.setdefault(r[3] >> 4, set()).add(i)
                    if r[1] != READ:
                        wr.add(r[3] >> 4)
        return any(len(use[x]) > 1 for x in wr)


@prop
class C08(Prop):
    id = "C08"
    oracle = staticmethod(O.writebacks)
    rule = "at least one write-back of a partly written line"

    def prof(self, rng):
        return Prof(ops=dict(rd=3, wr=6, amo=.6, inv=.5, flush=.5), dw=rng.choice([0, .3]),
                    resets=rng.choice([0, 0, 0, 1]), ext=rng.choice([0, 0, 4]))

    def nontrivial(self, case, trs):
        return _some(case["sc"], trs[0], lambda s: any(m[4] == WRITE and m[8] & (m[8] + 1) for m in s.mreqs))


@prop
class C09(Prop):
    id = "C09"
    oracle = staticmethod(O.amos)
    rule = "an AMO hit a line the cache held, and the line was used again"

    def make(self, rng):
        if rng.random() < .2:
            return {"sc": coh.program(rng)}
        return {"sc": scenario(rng, Prof(ops=dict(rd=4, wr=4, amo=3, inv=.3, flush=.3),
                                         resets=rng.choice([0, 0, 0, 1]), ext=rng.choice([0, 0, 4])))}

    def nontrivial(self, case, trs):
        held, hit = set(), set()
        c = Cfg(*case["sc"]["cfgs"][0])
        for s in _segs(case["sc"], trs[0]):
            ln, t = s.req[6] // c.line, s.req[4]
            if O.is_amo(t):
                if ln in held:
                    hit.add(ln)
            elif t in (READ, WRITE):
                if ln in hit:
                    return True
                held.add(ln)
        return False


@prop
class C10(Prop):
    id = "C10"
    oracle = staticmethod(O.liveness)
    rule = "the run had back-pressure, memory delay or a reset, and requests after it"

    def make(self, rng):
        if rng.random() < .2:
            return {"sc": coh.program(rng)}
        return {"sc": scenario(rng, Prof(resets=rng.choice([0, 0, 1, 2]), long=.04))}

    def nontrivial(self, case, trs):
        return any(s["rstall"] or s["mstall"] or s["lat"] or s["resets"] for s in case["sc"]["inst"])


@prop
class C11(Prop):
    id = "C11"
    oracle = staticmethod(O.traffic)
    rule = "at least one write-back and one fetch were sent"

    def prof(self, rng):
        return Prof(resets=rng.choice([0, 0, 1]), dw=.1)

    def nontrivial(self, case, trs):
        k = {e[4] for e in trs[0] if e[0] == MREQ}
        return READ in k and WRITE in k


@prop
class C12(Prop):
    id = "C12"
    oracle = staticmethod(O.handshake)
    rule = "both outgoing ports were stalled at some time during the run"

    def prof(self, rng):
        return Prof(resets=rng.choice([0, 0, 1]), gap=rng.random() < .5)

    def nontrivial(self, case, trs):
        end = trs[0][-1][2]
        return all(any(w[0] < end for s in case["sc"]["inst"] for w in s[k]) or case["sc"]["inst"][0]["loop"][j]
                   for k, j in (("rstall", 2), ("mstall", 1)))


@prop
class C13(Prop):
    id = "C13"
    quick = 8000
    rule = "the two runs differed in the cycle of at least one visible event"

    def make(self, rng):
        sc = gen.preloaded(rng, scenario(rng, Prof(long=.02, dw=.1)), .2)
        s = sc["inst"][0]
        alt = gen.timing(rng, Prof(), Cfg(*sc["cfgs"][0]).nlines + 20 + 8 * len(s["reqs"]))
        g = rng.choice([[0], [0], [0, 1], [0, 0, 5]])
        alt["gaps"] = [rng.choice(g) for _ in range(11)]
        return {"sc": sc, "alt": alt}

    def other(self, case):
        sc, alt = copy.deepcopy(case["sc"]), case["alt"]
        s = sc["inst"][0]
        for k in ("rstall", "mstall", "lat", "noise", "loop"):
            s[k] = alt[k]
        for j, r in enumerate(s["reqs"]):
            r[0] = alt["gaps"][j % 11]
        sc["max_cycles"] = gen.bound(sc)
        return sc

    def judge(self, case, eng):
        a = eng.run(case["sc"])
        b = eng.run(self.other(case))
        return O.same_streams(a, b, 1), [a, b]

    def nontrivial(self, case, trs):
        return [e[2] for e in trs[0] if e[0] in (RESP, MREQ)] != [e[2] for e in trs[1] if e[0] in (RESP, MREQ)]


@prop
class C17(Prop):
    id = "C17"
    quick = 6000
    rule = "two AMOs of different caches to one word overlapped in time"

    def make(self, rng):
        return {"sc": coh.amo_program(rng)}

    def judge(self, case, eng):
        tr = eng.run(case["sc"])
        return O.linearizable(case["sc"], tr), [tr]

    def legal(self, case):
        return coh.amo_legal(case["sc"])

    def nontrivial(self, case, trs):
        open_ = {}
        q = {}
        for e in trs[0]:
            if e[0] == REQ:
                q.setdefault(e[1], []).append(e)
                if O.is_amo(e[4]):
                    o = open_.setdefault(e[6], set())
                    o.add((e[1], e[3]))
                    if len({x[0] for x in o}) > 1:
                        return True
            elif e[0] == RESP and q.get(e[1]):
                r = q[e[1]].pop(0)
                if O.is_amo(r[4]):
                    open_[r[6]].discard((r[1], r[3]))
        return False


@prop
class C18(Prop):
    id = "C18"
    quick = 8000
    oracle = staticmethod(O.timing_bounds)
    rule = "back-to-back hits and at least one miss, nothing stalled, memory answering at once"

    def prof(self, rng):
        return Prof(stall=False, lat=False, gap=False, long=.02,
                    ops=dict(rd=5, wr=5, amo=.4, inv=.25, flush=.25))

    def nontrivial(self, case, trs):
        h = [e[6] for e in trs[0] if e[0] == RESP]
        return 1 in h and 0 in h


@prop
class C20(Prop):
    id = "C20"
    oracle = staticmethod(O.lanes)
    rule = "a write narrower or wider than a word was read back or written back"

    def prof(self, rng):
        return Prof(ops=dict(rd=5, wr=7, amo=.3, inv=.4, flush=.4), dw=rng.choice([.2, .5]), narrow=.7, n=(4, 60))

    def nontrivial(self, case, trs):
        c = Cfg(*case["sc"]["cfgs"][0])
        w = set()
        for e in trs[0]:
            if e[0] == REQ and e[4] == WRITE and O.nbytes(c, WRITE, e[7]) != 4:
                w.add(e[6] // c.line)
            elif e[0] == REQ and e[4] == READ and e[6] // c.line in w:
                return True
            elif e[0] == MREQ and e[4] == WRITE and e[6] // c.line in w:
                return True
        return False


@prop
class C21(Prop):
    id = "C21"
    quick = 8000
    rule = "the run contained a miss and idle cycles on the inputs"

    def make(self, rng):
        sc = gen.preloaded(rng, scenario(rng, Prof(resets=rng.choice([0, 0, 1]), dw=.1, ext=rng.choice([0, 0, 3]))), .2)
        sc["inst"][0]["noise"] = rng.getrandbits(60) | 1
        return {"sc": sc, "noise2": rng.choice([0, rng.getrandbits(60) | 1]), "xseed2": rng.choice([0, rng.getrandbits(30) | 1])}

    def judge(self, case, eng):
        sc2 = dict(case["sc"])
        sc2["inst"] = [dict(s, noise=case["noise2"]) for s in sc2["inst"]]
        sc2["xseed"] = case["xseed2"]
        a, b = eng.run(case["sc"]), eng.run(sc2)
        return O.same_visible(case["sc"], a, b), [a, b]

    def nontrivial(self, case, trs):
        return any(e[0] == MREQ and e[4] == READ for e in trs[0])


@prop
class C19(Prop):
    id = "C19"
    quick = 8000
    py = 0
    rule = "a read hit, and a response or memory request held back at some time"

    def units(self):
        from build import Unit
        return [u for c in gen.ALL for u in (c, Unit("wild", c))]

    def make(self, rng):
        return {"sc": scenario(rng, Prof(resets=rng.choice([0, 0, 1]), dw=.1, ext=rng.choice([0, 0, 3]), long=.03)),
                "xseed2": rng.getrandbits(30) | 1}

    def judge(self, case, eng):
        a = eng.run(case["sc"])
        b = eng.run(dict(case["sc"], xseed=case["xseed2"]), "wild_")
        m = O.same_visible(case["sc"], a, b)
        return m and m.replace("behaviour depends on don't-care inputs or power-up contents",
                               "behaviour depends on what an SRAM drives in cycles that follow no read"), [a, b]

    def nontrivial(self, case, trs):
        s = case["sc"]["inst"][0]
        return bool(s["rstall"] or s["mstall"]) and any(e[0] == RESP and e[4] == READ and e[6] for e in trs[0])


@prop
class C25(Prop):
    id = "C25"
    oracle = staticmethod(O.preload)
    rule = "a READ hit a line that had been loaded by WRITE_INIT"

    def units(self):
        return [c for c in gen.ALL if c.asso == 1]

    def make(self, rng):
        prof = Prof(cfgs=[c for c in gen.ALL if c.asso == 1], resets=rng.choice([0, 0, 0, 1]),
                    ops=dict(rd=6, wr=4, amo=.5, inv=.15, flush=.3), n=(4, 50))
        return {"sc": gen.preloaded(rng, scenario(rng, prof))}

    def nontrivial(self, case, trs):
        c, pre = Cfg(*case["sc"]["cfgs"][0]), set()
        for s in _segs(case["sc"], trs[0]):
            ln, t = s.req[6] // c.line, s.req[4]
            if t == INIT:
                pre.add(ln)
            elif t == READ and ln in pre and s.resp[6]:
                return True
            elif s.mreqs:
                pre.discard(ln)
        return False


@prop
class C23(Prop):
    id = "C23"
    quick = 8000
    py = 0
    rule = "a read of part of the data width was answered"

    def units(self):
        from build import Unit
        return [u for c in gen.ALL for u in (c, Unit("plain", c))]

    def make(self, rng):
        return {"sc": scenario(rng, Prof(ops=dict(rd=8, wr=4, amo=1, inv=.2, flush=.2), dw=.1, narrow=.6))}

    def judge(self, case, eng):
        a = eng.run(case["sc"])
        b = eng.run(case["sc"], "plain_")
        m = O.same_visible(case["sc"], a, b)
        return m and m.replace("behaviour depends on don't-care inputs or power-up contents",
                               "the caches on the fast and the plain data-select mux differ"), [a, b]

    def nontrivial(self, case, trs):
        c = Cfg(*case["sc"]["cfgs"][0])
        return any(e[0] == RESP and e[4] == READ and O.nbytes(c, READ, e[7]) < c.dbytes for e in trs[0])


@prop
class C24(Prop):
    id = "C24"
    quick = 400
    thorough = 20000
    qcap = 100
    py = 0
    rule = "the traced run had a miss and a hit"

    def units(self):
        return [c for c in gen.ALL if c.nlines <= 16]

    def make(self, rng):
        prof = Prof(resets=rng.choice([0, 0, 1, 2]), n=(8, 30), long=0, dw=.1, cfgs=self.units())
        return {"sc": gen.preloaded(rng, scenario(rng, prof), .3)}

    def judge(self, case, eng):
        a = eng.run(case["sc"])
        t = O.Trace(case["sc"])
        try:
            b = eng.py.run(case["sc"], t.watch, fast=True)
        except O.TraceError as x:
            return str(x), [a]
        m = O.same_visible(case["sc"], a, b)
        return m and m.replace("behaviour depends on don't-care inputs or power-up contents",
                               "a cache whose line trace is printed behaves differently"), [a, b]

    def nontrivial(self, case, trs):
        h = {e[6] for e in trs[0] if e[0] == RESP}
        return 0 in h and 1 in h


# --- the FL model, the translated Verilog, the SRAM -------------------------
@prop
class C14(Prop):
    id = "C14"
    quick = 1000
    thorough = 60000
    qcap = 60
    py = 0
    level = "translation_validation"
    rule = "the run contained a miss, a hit and a write"
    CLI = [("cli_rs_", Cfg(4096, 2, 128, 32)), ("cli_rs_", Cfg(4096, 1, 128, 32)), ("cli_rs_", Cfg(8192, 2, 128, 32)),
           ("cli_", Cfg(64, 2, 128, 64, 40, 6)), ("cli_", Cfg(256, 1, 256, 32, 32, 8)), ("cli_", Cfg(32, 2, 64, 32, 26, 4)),
           ("cli_", Cfg(128, 1, 128, 128, 34, 9))]

    def deepen(self, seed):
        n = len(gen.ALL)
        gen.extend(seed, 10)
        rng = random.Random(f"{seed}:cli")
        self.CLI = self.CLI + [("cli_", c) for c in gen.ALL[n:]] + \
            [("cli_rs_", Cfg(4096, a, 128, d, 32, rng.randrange(1, 20))) for a in (1, 2) for d in (64, 128)]

    def units(self):
        from build import Unit
        out = list(gen.ALL)
        for p, c in self.CLI:
            out += [Unit("cli", c, "rs" in p), c]
        return out

    def make(self, rng):
        if rng.random() < .06:
            prof = Prof(resets=rng.choice([0, 0, 1]), n=(15, 45), long=0, dw=.1)
            if rng.random() < .97:
                prof.cfgs = [c for c in gen.SMALL if c.nlines <= (16 if rng.random() < .9 else 64)]
            return {"sc": gen.preloaded(rng, scenario(rng, prof), .2), "other": "pymtl"}
        p, c = rng.choice(self.CLI)
        sc = gen.preloaded(rng, scenario(rng, Prof(resets=rng.choice([0, 0, 1]), cfgs=[c], dw=.1)), .2)
        return {"sc": sc, "other": p}

    def judge(self, case, eng):
        a = eng.run(case["sc"])
        b = eng.py.run(case["sc"]) if case["other"] == "pymtl" else eng.run(case["sc"], case["other"])
        m = O.same_visible(case["sc"], a, b)
        names = {"pymtl": "the PyMTL model", "cli_": "translate.py's Verilog",
                 "cli_rs_": "translate.py --replace-sram's Verilog"}
        if m:
            m = m.replace("behaviour depends on don't-care inputs or power-up contents",
                          f"the translated Verilog and {names[case['other']]} differ")
        return m, [a, b]

    def nontrivial(self, case, trs):
        k = {(e[4], e[6]) for e in trs[0] if e[0] == RESP}
        return (READ, 1) in k and any(not h for _, h in k) and any(t == WRITE for t, _ in k)


@prop
class C15(Prop):
    id = "C15"
    quick = 4000
    rule = "the run contained an eviction, an AMO, an invalidation or a flush besides plain hits and misses"

    def make(self, rng):
        prof = Prof(cfgs=[c for c in gen.ALL if c.abw == 32 and c.dbw <= 128], dw=0)
        prof.ops = dict(rd=5, wr=4, amo=1, inv=.4, flush=.4)
        sc = scenario(rng, prof)
        for r in sc["inst"][0]["reqs"]:
            if r[1] >= INV:                 # the FL model's inv() and flush() take an opaque only
                r[3] = r[4] = r[5] = 0
        n = rng.choice([0, 0, 0, 2, 4, 16])     # the FL model as one bank of a banked cache
        return {"sc": sc, "banks": [n, rng.randrange(n or 1)]}

    def judge(self, case, eng):
        import flmodel
        tr = eng.run(case["sc"])
        return flmodel.compare(case["sc"], tr, case.get("banks", (0, 0))), [tr]

    def nontrivial(self, case, trs):
        return any(e[0] == MREQ and e[4] != READ for e in trs[0]) or any(e[0] == RESP and e[4] >= INV for e in trs[0])


@prop
class C16(Prop):
    id = "C16"
    quick = 6000
    rule = "a location was written under a partial bit mask and read back later"
    SHAPES = [(32, 16), (128, 64), (26, 32), (25, 256), (1, 2), (64, 5)]
    HARD = [(128, 256), (26, 128), (128, 512), (25, 256), (128, 64), (26, 32), (32, 16), (27, 6)]

    def deepen(self, seed):
        rng = random.Random(f"{seed}:shapes")
        self.SHAPES = self.SHAPES + [(rng.randrange(1, 130), rng.randrange(2, 80)) for _ in range(16)]
        self.HARD = self.HARD + [(rng.randrange(1, 130), rng.randrange(2, 80)) for _ in range(8)]

    def units(self):
        from build import Unit
        return [Unit("sram", s) for s in self.SHAPES] + [Unit("hard", s) for s in self.HARD]

    def make(self, rng):
        hard = rng.random() < .45
        b, w = rng.choice(self.HARD if hard else self.SHAPES)
        hot = [rng.randrange(w) for _ in range(rng.choice([1, 2, 4]))] + [0, w - 1]
        full = (1 << b) - 1
        pv, pt, pr = rng.choice([.5, .9, 1]), rng.choice([.3, .5, .8]), rng.choice([0, 0, .05])
        ops = []
        for _ in range(rng.randrange(10, 200)):
            m = rng.random()
            ben = full if m < .3 else 0 if m < .4 else rng.getrandbits(b) if m < .8 else 1 << rng.randrange(b)
            ops.append([int(rng.random() < pr), int(rng.random() < pv), int(rng.random() < pt),
                        rng.choice(hot) if rng.random() < .8 else rng.randrange(w), rng.getrandbits(b), ben])
        case = {"sram": [b, w], "xseed": rng.getrandbits(30) | 1, "ops": ops}
        if hard:
            case["kind"] = "hard"
        return case

    def judge(self, case, eng):
        import srams
        return srams.judge(case, eng), []

    def nontrivial(self, case, trs):
        part = set()
        full = (1 << case["sram"][0]) - 1
        for r, v, t, i, d, b in case["ops"]:
            if v and t and b not in (0, full):
                part.add(i)
            elif v and not t and i in part:
                return True
        return False
