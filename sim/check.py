"""check.py <property> [--replay FILE]: decide one property by deterministic
simulation of /repo's current tree."""
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cfg                                                     # noqa: E402
from cfg import Cfg                                            # noqa: E402
import build as B                                              # noqa: E402
import engine as E                                             # noqa: E402
import gen                                                     # noqa: E402
import props                                                   # noqa: E402
import shrink as S                                             # noqa: E402
from oracles import Cutter, is_amo                             # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", VERIF)


class Eng:
    """The engines a judge may use."""

    def __init__(self, built, force_py=False):
        self.built, self.libs = built, (built.libs if built else {})
        self.vl = None
        self.py = E.PyEngine()
        self.force_py = force_py
        self._sram = {}

    def run(self, sc, prefix=""):
        keys = [prefix + Cfg(*c).key() for c in sc["cfgs"]]
        if self.force_py:
            return self.py.run(sc)
        if any(k not in self.libs for k in keys):
            return self.py.run(sc, fast=True, prefix=prefix)
        if self.vl is None:
            self.vl = E.VlEngine(self.built)
        return self.vl.run(sc, prefix)

    def sram(self, key):
        if key not in self._sram:
            import ctypes
            self._sram[key] = ctypes.CDLL(self.libs[key])
        return self._sram[key]


def case_of(p, seed, i):
    return p.make(random.Random(f"{seed}:{p.id}:{i}"))


# --------------------------------------------------------------------------- statistics
class Stats:
    def __init__(self):
        self.n = self.nontrivial = self.cycles = self.events = self.py_runs = 0
        self.f, self.probe = {}, {}
        self.inter, self.ctx, self.nt = set(), set(), set()
        self.cfgs = {}

    def bump(self, d, k, n=1):
        if n:
            d[k] = d.get(k, 0) + n

    def add(self, p, case, trs):
        self.n += 1
        h = hashlib.blake2b(digest_size=8)
        if not trs:
            h.update(json.dumps(case["ops"]).encode())
            self.cycles += len(case["ops"])
            self.bump(self.f, "resets of the SRAM", sum(o[0] for o in case["ops"]))
            self.bump(self.f, "random power-up contents", 1)
            self.bump(self.cfgs, "x".join(map(str, case["sram"])))
        else:
            for tr in trs:
                for e in tr:
                    h.update(struct.pack("<qqqq", e[0], e[1], e[2], e[3]))
            self._faults(case["sc"], trs)
        k = h.digest()
        self.inter.add(k)
        if p.nontrivial(case, trs):
            self.nontrivial += 1
            self.nt.add(k)

    def _faults(self, sc, trs):
        f, pr = self.f, self.probe
        tr = trs[0]
        end = tr[-1][2]
        for t in trs:
            self.cycles += t[-1][2] * len(sc["inst"])
            self.events += len(t)
        self.bump(f, "random power-up contents", 1 if sc["xseed"] else 0)
        for i, s in enumerate(sc["inst"]):
            self.bump(self.cfgs, Cfg(*sc["cfgs"][i]).key())
            self.bump(f, "master back-pressure windows", sum(w[0] < end for w in s["rstall"]))
            self.bump(f, "memory back-pressure windows", sum(w[0] < end for w in s["mstall"]))
            for k, n in enumerate(("limited memory queue (runs)", "memory busy after each request (runs)",
                                   "master busy after each response (runs)", "few outstanding requests (runs)")):
                self.bump(f, n, 1 if s.get("loop", (0, 0, 0, 0))[k] else 0)
            self.bump(f, "noise on idle inputs (runs)", 1 if s["noise"] else 0)
        last = {}
        cuts = [Cutter() for _ in sc["inst"]]
        inflight = [0] * len(cuts)
        for e in tr:
            k, i = e[0], e[1]
            if k == E.MREQ:
                inflight[i] += 1
                l = sc["inst"][i]["lat"]
                if l and sum(l[e[3] % len(l)]):
                    self.bump(f, "delayed memory answers")
            elif k == E.MRESP:
                inflight[i] -= 1
            elif k == E.RST:
                if not e[3]:
                    self.bump(f, "resets")
                    self.bump(f, "resets with requests in flight", bool(cuts[i].q))
                    self.bump(f, "memory requests or answers lost in a reset", inflight[i])
                inflight[i] = 0
            elif k == E.EXT:
                self.bump(f, "memory changed by another agent")
            s = cuts[i].feed(e) if k in (E.REQ, E.RESP, E.MREQ, E.RST) else None
            if s:
                t, hit = s.req[4], s.resp[6]
                n = len(s.mreqs)
                g = min(4, s.req[2] - last[i][2]) if i in last else 5
                kind = "amo" if is_amo(t) else E.TNAME.get(t, str(t))
                self.ctx.add((sc["cfgs"][i][1], kind, hit, min(n, 3), last.get(i, (0, 0))[:2], g,
                              min(6, (e[2] - s.req[2]) // 3)))
                if t < 2:
                    self.bump(pr, f"{kind} {'hit' if hit else 'miss'}")
                    self.bump(pr, "miss with write-back of the victim", not hit and n > 1)
                else:
                    self.bump(pr, kind)
                    if n > 1 and is_amo(t):
                        self.bump(pr, "amo with write-back")
                    if n and t == E.FLUSH:
                        self.bump(pr, "flush with write-back")
                last[i] = (kind, hit, s.req[2])

    def merge(self, o):
        for k in ("n", "nontrivial", "cycles", "events", "py_runs"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for a, b in ((self.f, o.f), (self.probe, o.probe), (self.cfgs, o.cfgs)):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        self.inter |= o.inter
        self.nt |= o.nt
        self.ctx |= o.ctx


# --------------------------------------------------------------------------- workers
def guarded(p, case, eng):
    """judge(), with a configuration that cannot be generated as a violation."""
    try:
        return p.judge(case, eng)
    except E.DutError as x:
        return str(x), None


def small(case, nlines, nreqs):
    """Short enough for the PyMTL model, which is slow."""
    sc = case["sc"]
    return max(Cfg(*x).nlines for x in sc["cfgs"]) <= nlines and sum(len(s["reqs"]) for s in sc["inst"]) <= nreqs


def unbuilt(case, eng):
    return any(Cfg(*c).key() not in eng.libs for c in case["sc"]["cfgs"])


def worker(p, eng, seed, todo, cap, w, wfd, pyset):
    st = Stats()
    found = None
    t0 = time.time()
    for j, i in enumerate(todo):
        if time.time() - t0 > cap:
            break
        os.write(wfd, struct.pack("<cqq", b"i", i, 0))
        case = case_of(p, seed, i)
        if "sc" in case and unbuilt(case, eng) and not small(case, 64, 60):
            continue
        eng.force_py = False
        if i in pyset and "sc" in case and not unbuilt(case, eng):
            trs = p.judge(case, eng)[1]             # the PyMTL model is slow: only short runs
            if sum(t[-1][2] for t in trs) * len(case["sc"]["inst"]) > 450:
                continue
        eng.force_py = i in pyset
        m, trs = guarded(p, case, eng)
        if trs is None:
            found = (i, m, eng.force_py)
            break
        if j < (1 if "sc" in case and unbuilt(case, eng) else 3) and not eng.force_py and m is None:
            m2, trs2 = p.judge(case, eng)
            if m2 != m or trs2 != trs:
                m = "NONDETERMINISM"
        st.py_runs += eng.force_py or case.get("other") == "pymtl"
        st.add(p, case, trs)
        if m:
            found = (i, m, eng.force_py)
            break
    d = pickle.dumps((st, found))
    os.write(wfd, struct.pack("<cqq", b"r", len(d), 0))
    while d:
        d = d[os.write(wfd, d[:60000]):]


def spawn(f):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            f(w)
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def run_all(p, eng, seed, indices, cap, nw, pyset):
    """Run every case index over nw processes; returns Stats, [violations]."""
    kids = {}
    for w in range(nw):
        todo = indices[w::nw]
        pid, r = spawn(lambda fd: worker(p, eng, seed, todo, cap, w, fd, pyset))
        kids[r] = [pid, b"", None, None, None]        # pid, buffer, last index, result, wanted
    total, viol = Stats(), []
    while kids:
        for r in select.select(list(kids), [], [])[0]:
            k = kids[r]
            d = os.read(r, 1 << 20)
            if d:
                k[1] += d
                while True:
                    if k[4] is None and len(k[1]) >= 17:
                        t, a, _ = struct.unpack("<cqq", k[1][:17])
                        k[1] = k[1][17:]
                        if t == b"i":
                            k[2] = a
                        else:
                            k[4] = a
                    else:
                        break
                continue
            os.close(r)
            st = os.waitpid(k[0], 0)[1]
            if k[4] is not None and len(k[1]) >= k[4]:
                s, found = pickle.loads(k[1])
                total.merge(s)
                if found:
                    viol.append(found)
            elif os.WIFSIGNALED(st):
                viol.append((k[2], f"the simulation died with signal {os.WTERMSIG(st)}", False))
            else:
                viol.append((k[2], "HARNESS", False))
            del kids[r]
    return total, sorted(viol)


def isolated(f, timeout):
    """f() in a child: (result, None) or (None, reason)."""
    def body(fd):
        signal.alarm(int(timeout) + 1)
        d = pickle.dumps(f())
        while d:
            d = d[os.write(fd, d[:60000]):]
    pid, r = spawn(body)
    buf = b""
    while True:
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if os.WIFSIGNALED(st):
        return None, f"the simulation died with signal {os.WTERMSIG(st)}"
    if st:
        return None, "HARNESS"
    return pickle.loads(buf), None


# --------------------------------------------------------------------------- reporting
def sample(p, case, trs):
    if not trs:
        return {"sram": case["sram"], "ops": case["ops"][:12]}
    return {"caches": [Cfg(*c).key() for c in case["sc"]["cfgs"]],
            "faults": {k: len(case["sc"]["inst"][0][k]) for k in ("rstall", "mstall", "lat", "resets")},
            "first_events": [E.show(e).strip() for e in trs[0][:14]]}


def write_replay(p, seed, i, case, msg, force_py, first):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{p.id}-{h}.json")
    with open(path, "w") as f:
        json.dump({"property": p.id, "seed": seed, "index": i, "engine": "pymtl" if force_py else "verilator",
                   "violation": msg, "before_minimisation": first, "case": case}, f, indent=1)
    return path


def units(p, case=None):
    us = p.units()
    if case and "sc" in case:
        want = {Cfg(*c).key() for c in case["sc"]["cfgs"]}
        us = [u for u in us if (u.key() if isinstance(u, Cfg) else u.cfg.key()) in want]
        have = {u.key() for u in us if isinstance(u, Cfg)}
        us += [c for c in map(lambda x: Cfg(*x), case["sc"]["cfgs"]) if c.key() not in have]
        if p.id in ("C19", "C23"):
            us += [B.Unit("wild" if p.id == "C19" else "plain", c) for c in us if isinstance(c, Cfg)]
        if str(case.get("other", "")).startswith("cli"):
            us += [B.Unit("cli", c, "rs" in case["other"]) for c in us if isinstance(c, Cfg)]
    elif case and "sram" in case:
        us = [B.Unit(case.get("kind", "sram"), tuple(case["sram"]))]
    elif case and "unit" in case:
        us = [u for u in us if not isinstance(u, Cfg) and u.key == case["unit"]
              or isinstance(u, Cfg) and u.key() == case["unit"]]
    return us


def replay(p, path):
    d = json.load(open(path))
    case = d["case"]
    built = B.build(units(p, case))
    try:
        if "unit" in case:
            m = None
            if built.failed:
                m = f"{case['unit']} no longer builds: {' '.join(built.failed[case['unit']].split())[-400:]}"
        else:
            eng = Eng(built, d["engine"] == "pymtl")
            r, why = isolated(lambda: guarded(p, case, eng), 300)
            m = why or r[0]
            if r and r[1]:
                for e in r[1][0]:
                    print(E.show(e))
    finally:
        cleanup(built)
    if m:
        print(m)
        print(f"VIOLATION property={p.id} replay={path}")
        return 1
    print("the replay no longer fails")
    return 0


def cleanup(built):
    if built and not os.environ.get("VERIF_BUILD_CACHE"):
        shutil.rmtree(built.root, ignore_errors=True)


def main():
    p = props.REG[sys.argv[1]]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(p, sys.argv[3])
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    nw = os.cpu_count() or 4
    if tier == "thorough":
        p.deepen(seed)
    built = B.build(units(p))
    try:
        return decide(p, seed, tier, t0, nw, built)
    finally:
        cleanup(built)


def decide(p, seed, tier, t0, nw, built):
    eng = Eng(built)
    n = p.quick if tier == "quick" else p.thorough
    cap = p.qcap if tier == "quick" else p.tcap
    viol = []
    total = Stats()
    sim_t = 0.0
    if built.failed:
        for k, v in built.failed.items():
            print(f"note: {k} did not build: {' '.join(v.split())[-300:]}", file=sys.stderr)
    if built.failed and p.id == "C14":
        k = sorted(built.failed)[0]
        msg = f"no working Verilog for {k}: {' '.join(built.failed[k].split())[-400:]}"
        viol = [(-1, msg, False)]
        case = {"unit": k}
    else:
        # a few scenarios also step the PyMTL model itself
        npy = p.py if tier == "quick" else 16 * p.py
        pyset, i = set(), 0
        base = 10 ** 9                              # indices reserved for the PyMTL model
        while len(pyset) < 3 * npy and i < 100000:
            c = case_of(p, seed, base + i)
            if "sram" in c and "kind" not in c and c["sram"][0] * c["sram"][1] <= 1024 or "sc" in c and small(c, 16, 45):
                pyset.add(base + i)
            i += 1
        caches = [u.key() not in built.libs for u in p.units() if isinstance(u, Cfg)]
        if 2 * sum(caches) > len(caches):
            n, cap = 4 * n, max(cap, 300)           # nothing to compile: step the PyMTL model
        idx = sorted(pyset) + list(range(n))
        t1 = time.time()
        total, viol = run_all(p, eng, seed, idx, cap, nw, pyset)
        sim_t = time.time() - t1
        if viol:
            i = viol[0][0]
            case = case_of(p, seed, i) if i is not None else None
    rc, path = 0, None
    if viol:
        i, msg, fpy = viol[0]
        if msg in ("HARNESS", "NONDETERMINISM"):
            print(f"error: {msg} in case {i}", file=sys.stderr)
            return 2
        first = None
        if i >= 0:
            eng.force_py = fpy

            def verdict(c):
                r, why = isolated(lambda: guarded(p, c, eng)[0], 120)
                return why or r

            def test(c):
                if not p.legal(c):
                    return False
                m = verdict(c)
                return bool(m) and m != "HARNESS"
            again = verdict(case)
            if not again or again == "HARNESS":
                print(f"error: case {i} failed once ({msg}) and not again ({again})", file=sys.stderr)
                return 2
            first = {"requests": sum(len(s["reqs"]) for s in case["sc"]["inst"]) if "sc" in case else len(case["ops"]), "violation": msg}
            case = S.shrink(case, test, 20.0 if not fpy else 40.0)
            msg = verdict(case)
        path = write_replay(p, seed, i, case, msg, fpy, first)
        print(msg)
        print(f"VIOLATION property={p.id} replay={path}")
        rc = 1
    evidence(p, seed, tier, t0, total, sim_t, built, len(viol), msg if viol else None)
    if not rc:
        print(f"{p.id}: held in {total.n} simulated runs ({total.cycles} cycles; build {built.secs:.0f} s, "
              f"simulation {sim_t:.0f} s, all {time.time() - t0:.0f} s)")
    return rc


def evidence(p, seed, tier, t0, st, sim_t, built, nviol, msg):
    samples = []
    for i in range(200000):
        if len(samples) >= 2 or built.failed and p.id == "C14":
            break
        case = case_of(p, seed, i)
        if case.get("other") == "pymtl":
            continue
        r, why = isolated(lambda: (p.nontrivial(case, (x := p.judge(case, Eng(built)))[1]), x[1]), 120)
        if why:
            break
        if r[0]:
            samples.append(sample(p, case, r[1]))
    cov = {
        "evaluations": st.n,
        "distinct_nontrivial": len(st.nt),
        "rule": "each case is one simulated run drawn from the seed; non-trivial: " + p.rule
                + "; distinct: different (kind, cache, cycle, index) sequence of visible events",
        "samples": samples or [{"note": "no sample: " + (msg or "nothing ran")}],
        "runs_per_hour": int(st.n / sim_t * 3600) if sim_t else 0,
        "seeds": {"base": seed, "derived_case_seeds": st.n},
        "simulated_cycles": st.cycles,
        "visible_events": st.events,
        "faults_injected": st.f,
        "rare_condition_probes": st.probe,
        "distinct_interleavings": len(st.inter),
        "distinct_request_contexts": len(st.ctx),
        "context_measure": "(associativity, operation, hit, memory requests, previous operation and outcome, gap to it, latency bucket)",
        "configurations": st.cfgs,
        "real_components": "every cache (translated from the working tree and compiled)"
                           f"; {st.py_runs} runs stepped the PyMTL model itself",
        "stub_components": "masters, main memory, other agents (simulator); foundry SRAM macros without a model in /repo",
        "engine_fallbacks": sorted(built.failed),
        "build_s": round(built.secs, 1),
    }
    if p.level == "translation_validation":
        cov["programs"] = len(built.libs)
        cov["disagreements_checked"] = st.n
    ev = {"property": p.id, "tier": tier, "seed": seed, "level": p.level, "coverage": cov,
          "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    d = os.path.join(OUT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, p.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


ASSUME = [
    "memory answers each cache in order and performs a request at one instant",
    "masters raise the request enable only in a cycle in which the cache is ready",
    "a reset lasts at least one cycle; outstanding memory transactions have taken effect or not, and are answered while it lasts or never",
    "accesses are naturally aligned, at most 128 bits; AMOs are 32 bits; WRITE_INIT is used only by C25, LR and SC never",
    "Verilator simulates the generated Verilog faithfully",
]

if __name__ == "__main__":
    sys.exit(main())
