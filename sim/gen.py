"""Seeded scenario generator. One (seed, property, index) is one scenario; a
scenario fixes workload, power-up state, every delay and every fault."""
import random

from cfg import Cfg
from engine import READ, WRITE, INIT, AMO_LO, AMO_HI, INV, FLUSH

# Configurations simulated by every check: direct-mapped and two-way, one to 256
# lines, line 64..512 bits, data 32..128 bits, short/long addresses and tags.
SMALL = [Cfg(64, 2, 128, 32), Cfg(32, 1, 128, 32), Cfg(32, 2, 64, 32), Cfg(64, 2, 128, 64),
         Cfg(64, 2, 128, 128), Cfg(16, 1, 64, 64), Cfg(64, 1, 128, 128), Cfg(128, 2, 128, 32, 40, 8),
         Cfg(512, 2, 256, 32, 32, 4), Cfg(256, 1, 512, 128), Cfg(128, 2, 64, 64, 24, 10),
         Cfg(256, 2, 256, 64), Cfg(512, 1, 128, 32),
         Cfg(128, 2, 128, 32, 48, 16), Cfg(1024, 2, 128, 32, 16, 1), Cfg(64, 1, 64, 32, 20, 12), Cfg(256, 2, 512, 64, 56, 3)]
BIG = [Cfg(4096, 2, 128, 32), Cfg(4096, 1, 128, 64), Cfg(512, 2, 512, 32, 34, 7)]
ALL = SMALL + BIG
# most weight on the smallest caches (every line is reached often)
WEIGHT = [6, 4, 4, 4, 4, 2, 2, 4, 3, 2, 3, 2, 2, 2, 1, 1, 2, 2, 1, 2]


def extend(seed, n):
    """Add n random geometries (thorough tier)."""
    rng = random.Random(f"{seed}:geometries")
    have = {c.key() for c in ALL}
    while n:
        clw = rng.choice([64, 128, 128, 256, 512])
        dbw = rng.choice([d for d in (32, 64, 128) if d <= clw])
        asso = rng.choice([1, 2])
        sets = 1 << rng.randrange(1, 7 if clw < 512 else 5)
        lo = (clw // 8 * sets).bit_length() + 1
        c = Cfg(clw // 8 * sets * asso, asso, clw, dbw, rng.choice([32, rng.randrange(lo, 57)]), rng.randrange(1, 25))
        if c.key() not in have:
            have.add(c.key())
            ALL.append(c)
            WEIGHT.append(2)
            n -= 1


class Prof:
    """What a property's scenarios look like."""

    def __init__(self, **k):
        self.ops = dict(rd=4, wr=4, amo=1, inv=.4, flush=.4)
        self.n = (4, 70)
        self.long = .02            # share of scenarios with several hundred requests
        self.wide = True           # accesses wider than a word
        self.dw = 0.0              # share of 32-bit writes using the double-word form
        self.resets = 0
        self.ext = 0
        self.ninst = 1
        self.cfgs = None
        self.stall = True
        self.lat = True
        self.gap = True
        self.noise = .5
        self.narrow = 0.0          # share of accesses that are surely not one word
        self.__dict__.update(k)


def pick_cfg(rng, prof):
    if prof.cfgs:
        return rng.choice(prof.cfgs)
    return rng.choices(ALL, WEIGHT)[0]


def lines_for(rng, c):
    """A working set of line addresses: conflicting tags, tags one bit apart,
    extreme tags, adjacent lines."""
    top = 1 << c.abw
    tagbits = c.abw - (c.line * c.sets - 1).bit_length()
    nset = rng.choice([1, 1, 2, 3, 4, 16])
    sets = []
    for _ in range(nset):
        m = rng.random()
        if m < .3:
            s = rng.choice([0, c.sets - 1])
        elif m < .5 and sets:
            s = sets[-1] ^ (1 << rng.randrange(max(1, (c.sets - 1).bit_length())))
        else:
            s = rng.randrange(c.sets)
        sets.append(s % c.sets)
    ntag = rng.choice([1, 2, 2, 3, 3, 4, 6])
    base = rng.choice([0, 0, (1 << tagbits) - 1, rng.getrandbits(tagbits)])
    tags = [base]
    while len(tags) < ntag:
        m = rng.random()
        if m < .55:
            t = tags[0] ^ (1 << rng.randrange(tagbits))
        elif m < .75:
            t = (tags[-1] + 1) % (1 << tagbits)
        else:
            t = rng.getrandbits(tagbits)
        tags.append(t)
    out = []
    for s in sets:
        for t in tags:
            if rng.random() < .9 or not out:
                out.append((t * c.sets + s) * c.line % top)
    return out


def value(rng, nbits):
    m = rng.random()
    if m < .75:
        return rng.getrandbits(nbits)
    if m < .85:
        return (1 << nbits) - 1
    if m < .93:
        return 0
    return 1 << rng.randrange(nbits)


def amo_len(c):
    return 0 if c.dbw == 32 else 4


def mk_req(rng, c, t, line, prof, gap=0, phase=0, words=None):
    """One request of type t on `line` (words: restrict to these word indexes)."""
    opq = rng.getrandbits(c.obw)
    a, ln, d = 0, 0, 0
    if t in (READ, WRITE):
        lens = [x for x in c.lens() if (prof.wide or x <= 4) and x <= 16]
        if words is not None:
            lens = [x for x in lens if x <= 4]
        n = rng.choice(lens + [4, 4]) if rng.random() >= prof.narrow else rng.choice([x for x in lens if x != 4])
        off = rng.randrange(c.line // n) * n
        if words is not None:
            off = rng.choice(words) * 4 + (off & 3 if n < 4 else 0)
        ln = c.enc_len(n)
        if t == WRITE and c.dbw == 32 and rng.random() < prof.dw:
            ln, off, n = 3, off & ~7, 4
        a = line + off
        if t == WRITE:
            d = value(rng, 8 * n)
            if rng.random() < .3:      # bits above the access size are don't-care
                d |= rng.getrandbits(c.dbw) >> (8 * n) << (8 * n)
    elif AMO_LO <= t <= AMO_HI:
        w = rng.choice(words) if words is not None else rng.randrange(c.line // 4)
        a, ln, d = line + 4 * w, amo_len(c), value(rng, 32)
    elif rng.random() < .5:            # INV and FLUSH have no use for these
        a, ln, d = line + rng.randrange(c.line), rng.randrange(c.dbytes), rng.getrandbits(c.dbw)
    return [gap, t, opq, a, ln, d, phase]


def windows(rng, horizon):
    """Back-pressure windows [start, length] covering `horizon` cycles, then none."""
    m = rng.random()
    if m < .25:
        return []
    out, x = [], 0
    if m < .35:                                     # mostly stalled, brief openings
        op = rng.choice([1, 1, 2, 3])
        ln = rng.choice([1, 2, 4, 9])
        while x < horizon and len(out) < 1500:
            out.append([x, ln])
            x += ln + op
        return out
    if m < .45:                                     # few long outages
        for _ in range(rng.randrange(1, 4)):
            out.append([rng.randrange(horizon), rng.choice([17, 40, 70, 150, 300])])
        return sorted(out)
    p = rng.choice([2, 3, 5, 9, 25])
    L = rng.choice([[1], [1, 1, 2], [1, 2, 3, 5], [2, 4, 8], [1, 12]])
    while x < horizon and len(out) < 1500:
        x += rng.randrange(1, 2 * p)
        l = rng.choice(L)
        out.append([x, l])
        x += l
    return out


def timing(rng, prof, horizon):
    m = rng.random()
    if not prof.lat or m < .25:
        lat = []
    elif m < .4:
        lat = [[rng.choice([0, 1, 2, 3, 7]), rng.choice([0, 1, 2, 3, 7])]]
    else:
        hi = rng.choice([1, 3, 3, 10, 40])
        lat = [[rng.randrange(hi + 1), rng.randrange(hi + 1)] for _ in range(rng.choice([3, 5, 7, 11]))]
        if rng.random() < .05:
            lat[0] = [rng.choice([100, 300]), 0]
    loop = [0, 0, 0, 0]
    if prof.stall and rng.random() < .35:           # receivers that react to what they got
        loop = [rng.choice([0, 1, 1, 2]), rng.choice([0, 0, 1, 1, 2, 3, 5]), rng.choice([0, 0, 1, 1, 2, 3, 5]), 0]
    if prof.gap and rng.random() < .15:             # masters with few outstanding requests
        loop[3] = rng.choice([1, 1, 2])
    return dict(loop=loop, rstall=windows(rng, horizon) if prof.stall else [],
                mstall=windows(rng, horizon) if prof.stall else [],
                lat=lat, noise=rng.getrandbits(60) | 1 if rng.random() < prof.noise else 0)


def ops_mix(rng, prof):
    """Swarm: each scenario enables a random subset of operations, reweighted."""
    names = list(prof.ops)
    w = [prof.ops[n] * rng.choice([0, .3, 1, 1, 3]) for n in names]
    if not any(w):
        w = [prof.ops[n] for n in names]
    return names, w


def pick_type(rng, name):
    if name == "amo":
        return rng.randrange(AMO_LO, AMO_HI + 1)
    return {"rd": READ, "wr": WRITE, "inv": INV, "flush": FLUSH}[name]


def workload(rng, c, prof, n):
    names, w = ops_mix(rng, prof)
    lines = lines_for(rng, c)
    m = rng.random()
    gaps = [0] if m < .5 or not prof.gap else rng.choice([[0, 0, 1], [0, 1, 2, 3], [0, 0, 0, 12], [4], [0, 0, 40]])
    loc = rng.choice([0, .3, .6])
    reqs, last = [], lines[0]
    k = 0
    while k < n:
        if rng.random() < .02:                     # sweep consecutive lines
            st = rng.choice(lines)
            t = rng.choice([READ, WRITE])
            cnt = min(rng.choice([4, c.nlines, c.nlines + 2]), n - k + 4)
            if c.nlines > 64 and rng.random() < .3:
                cnt = min(c.nlines + 1, 2 * n)
            for j in range(cnt):
                reqs.append(mk_req(rng, c, t, (st + j * c.line) % (1 << c.abw), prof, rng.choice(gaps)))
            k += cnt
            continue
        t = pick_type(rng, rng.choices(names, w)[0])
        line = last if rng.random() < loc else rng.choice(lines)
        last = line
        reqs.append(mk_req(rng, c, t, line, prof, rng.choice(gaps)))
        k += 1
    return reqs, lines


def preload(rng, c, lines):
    """WRITE_INITs that fill whole lines of a direct-mapped cache."""
    lines = list(dict.fromkeys(lines))
    rng.shuffle(lines)
    groups = []
    for l in lines[:rng.choice([1, 2, 4, 8])]:
        n = rng.choice([x for x in c.lens() if x <= 16])
        g = [(l + o, n) for o in range(0, c.line, n)]
        rng.shuffle(g)
        for _ in range(rng.choice([0, 0, 1, 3])):
            n = rng.choice([x for x in c.lens() if x <= 16])
            g.append((l + rng.randrange(c.line // n) * n, n))
        groups.append(g)
    if len({c.index(g[0][0]) for g in groups}) == len(groups) and rng.random() < .5:
        groups = [[g.pop(0) for g in groups if g] for _ in range(max(map(len, groups)))]
    gaps = rng.choice([[0], [0, 0, 1], [0, 1, 2, 9]])
    return [[rng.choice(gaps), INIT, rng.getrandbits(c.obw), a, c.enc_len(n), value(rng, c.dbw), 0]
            for g in groups for a, n in g]


def preloaded(rng, sc, share=1.0):
    """The scenario, for some direct-mapped caches with its lines loaded first."""
    c, s = Cfg(*sc["cfgs"][0]), sc["inst"][0]
    if c.asso == 1 and len(sc["cfgs"]) == 1 and rng.random() < share:
        pre = preload(rng, c, [r[3] // c.line * c.line for r in s["reqs"] if r[1] < INV] or [0])
        s["reqs"] = pre + s["reqs"]
        s["resets"] = [[r[0] + len(pre), *r[1:]] for r in s["resets"] if r[0] >= 0]    # none while loading
        for e in sc["ext"]:
            e[1] += len(pre) if e[1] >= 0 else 0
        sc["max_cycles"] = bound(sc)
    return sc


def whole(sc):
    """Lines are loaded first and completely, and no reset comes in between."""
    for k, s in zip(sc["cfgs"], sc["inst"]):
        c, left = Cfg(*k), {}
        last = max((j for j, r in enumerate(s["reqs"]) if r[1] == INIT), default=-1)
        if any(r[1] != INIT for r in s["reqs"][:last + 1]) or any(last >= 0 and r[0] < last for r in s["resets"]):
            return False
        for r in s["reqs"][:last + 1]:
            i, n = c.index(r[3]), r[4] or c.dbytes
            l, m = left.get(i, (None, 0))
            if l != r[3] // c.line:
                m = (1 << c.line) - 1
            left[i] = r[3] // c.line, m & ~((1 << n) - 1 << r[3] % c.line)
        if any(m for _, m in left.values()):
            return False
    return True


def bound(sc):
    """Cycles after which even a generous schedule of `sc` is over, so that a
    run still busy then has stopped making progress."""
    total = stop = 0
    for s, k in zip(sc["inst"], sc["cfgs"]):
        c = Cfg(*k)
        lat = max((a + b for a, b in s["lat"]), default=0) + 8 + sum(s.get("loop", (0, 0, 0, 0))[1:3])
        writes = 0
        for r in s["reqs"]:
            if r[1] >= INV:
                total += 3 * c.nlines + 20 + lat + r[0] + min(writes, c.nlines) * (lat + 8)
                if r[1] == FLUSH:
                    writes = 0
            else:
                total += 20 + 2 * lat + r[0]
                writes += r[1] == WRITE
        total += (len(s["resets"]) + 1) * (c.nlines + 40) + sum(r[2] + max(0, r[1]) for r in s["resets"])
        stop = max([stop] + [a + b for key in ("rstall", "mstall") for a, b in s[key]])
    return 500 + stop + 2 * total


def scenario(rng, prof):
    c = pick_cfg(rng, prof)
    n = rng.randrange(*prof.n)
    if rng.random() < prof.long:
        n = rng.randrange(200, 500) if rng.random() < .92 else rng.randrange(1200, 2600)
    reqs, lines = workload(rng, c, prof, n)
    horizon = c.nlines + 20 + len(reqs) * rng.choice([3, 8, 20])
    t = timing(rng, prof, horizon)
    resets = []
    if prof.resets:
        for _ in range(rng.randrange(1, prof.resets + 1)):
            k = rng.choice([-1] + [rng.randrange(len(reqs))] * 9)
            d = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, rng.randrange(1, 40)])
            if k < 0:                               # also during/just after initialisation
                d = 2 + rng.randrange(2 * c.nlines + 6)
            resets.append([k, d, rng.choice([1, 2, 2, 3, 10])])
        resets.sort(key=lambda r: (r[0], r[1]))
    ext = []
    if prof.ext:
        for _ in range(rng.randrange(1, prof.ext + 1)):
            a = rng.choice(lines) + 4 * rng.randrange(c.line // 4)
            ext.append([0, rng.randrange(-1, len(reqs)), rng.randrange(0, 30), a, rng.getrandbits(32)])
    sc = dict(cfgs=[c.tolist()], mem_seed=rng.getrandbits(63), xseed=rng.getrandbits(30) | 1,
              drain=16, mem_at_reset=rng.randrange(2), late=rng.randrange(2), ext=ext,
              inst=[dict(reqs=reqs, resets=resets, **t)])
    sc["max_cycles"] = bound(sc)
    return sc
