"""Race-free multi-cache programs (software coherence: FLUSH, INV, AMO).

Phases are barriers. Within a phase each word is written by at most one cache,
or only read, or only used by AMOs; a cache reads a word only if the program has
made it visible there. Words of one line are dealt to different caches, so false
sharing is the normal case."""
from engine import READ, WRITE, INV, FLUSH
from gen import Prof, ALL, bound, lines_for, mk_req, timing, pick_type
from cfg import Cfg

FULL, PART = 0, 1


def groups():
    """Configurations that may share a memory: any mix of geometries with the
    same address width."""
    return [c for c in ALL if c.abw == 32 and c.nlines <= 32]


def program(rng, max_phases=12):
    n = rng.choice([2, 2, 2, 3, 4])
    pool = groups()
    same = rng.random() < .6
    c0 = rng.choice(pool[:5] if rng.random() < .7 else pool)
    cf = [c0 if same else rng.choice(pool) for _ in range(n)]
    big = max(cf, key=lambda c: c.line)
    # few lines of the widest geometry, cut into words
    crowd = rng.random() < .45                 # busy phases: long runs of accesses, evictions
    lines = lines_for(rng, big)[:rng.choice([3, 5, 7] if crowd else [1, 2, 3, 5])]
    words = sorted({(l >> 2) + j for l in lines for j in range(big.line // 4)})
    if len(words) > (36 if crowd else 24):
        words = sorted(rng.sample(words, 36 if crowd else 24))
    own = {w: None for w in words}             # cache holding unflushed data
    seen = [{w: True for w in words} for _ in range(n)]   # initially everything is in memory
    prof = Prof(wide=False)
    reqs = [[] for _ in range(n)]
    flushes = rng.choice([.3, .6, .9])
    gaps = rng.choice([[0], [0, 0, 1], [0, 2, 7]])

    def req(i, t, w=None, phase=0):
        c = cf[i]
        if w is not None:
            l = (w << 2) // c.line
            alone[i].discard(l) if t in (READ, WRITE) else alone[i].add(l)
        if w is None:
            r = mk_req(rng, c, t, 0, prof, rng.choice(gaps), phase)
            r[3] = 0
        else:
            a = w << 2
            r = mk_req(rng, c, t, a // c.line * c.line, prof, rng.choice(gaps), phase,
                       words=[a % c.line >> 2])
        reqs[i].append(r)
        return r

    alone = [set() for _ in range(n)]          # lines an AMO has dropped from that cache

    def near(ws, i):
        """A word, often of the line used last."""
        if reqs[i] and reqs[i][-1][1] < INV and rng.random() < .4:
            l = [w for w in ws if w << 2 >> 4 == reqs[i][-1][3] >> 4]
            ws = l or ws
        return rng.choice(ws)

    nph = rng.randrange(1, 5) if crowd else rng.randrange(2, max_phases + 1)
    for ph in range(nph):
        start_own = dict(own)
        mode = {}
        busy = rng.random()
        for w in words:
            x = rng.random()
            if x > (.8 if crowd else .35) + .6 * busy:
                continue
            m = rng.random()
            if m < .45 and True:
                o = own[w]
                mode[w] = ("w", o if o is not None else rng.randrange(n))
            elif m < .6 and own[w] is None:
                mode[w] = ("a", None)
            else:
                mode[w] = ("r", None)
        for i in range(n):
            acts = []
            # what this cache's view of each word becomes, in program order
            mywords = [w for w, (k, o) in mode.items() if k == "w" and o == i]
            rd = [w for w, (k, o) in mode.items() if k == "r"]
            am = [w for w, (k, o) in mode.items() if k == "a"]
            budget = rng.randrange(4, 30) if crowd else rng.randrange(0, 9)
            for _ in range(budget):
                x = rng.random()
                if x < .4 and mywords:
                    w = near(mywords, i)
                    r = req(i, WRITE, w, ph)
                    full = (r[4] or cf[i].dbytes) >= 4
                    if not full and not seen[i][w]:
                        r[4] = cf[i].enc_len(4)          # cannot merge with a stale word
                        r[3] = w << 2
                    seen[i][w] = True
                    own[w] = i
                elif x < .75 and (rd or mywords):
                    w = near(rd + mywords, i)
                    if seen[i][w]:
                        req(i, READ, w, ph)
                elif x < .85 and am:
                    w = near(am, i)
                    req(i, pick_type(rng, "amo"), w, ph)
                    l = (w << 2) // cf[i].line
                    for w in words:
                        k, o = mode.get(w, (None, None))
                        if (w << 2) // cf[i].line == l and start_own[w] is None and k != "a" and not (k == "w" and o != i):
                            seen[i][w] = True
                elif x < .93 and rng.random() < flushes:
                    req(i, FLUSH, None, ph)
                    for w in words:
                        if own[w] == i:
                            own[w] = None
                            start_own[w] = i             # flushed, but others may not rely on it in this phase
                elif x < .97:
                    req(i, INV, None, ph)
                    for w in words:
                        k, o = mode.get(w, (None, None))
                        if start_own[w] is None and k != "a" and not (k == "w" and o != i):
                            seen[i][w] = True
        for w, (k, o) in mode.items():
            if k == "w" and any(r[6] == ph and r[1] == WRITE and r[3] >> 2 == w for r in reqs[o]):
                for i in range(n):
                    if i != o:
                        seen[i][w] = False
            elif k == "a":
                for i in range(n):
                    seen[i][w] = False
        for w in words:
            for i in range(n):
                if own[w] is None and (w << 2) // cf[i].line in alone[i]:
                    seen[i][w] = True
    # everyone flushes: memory must then hold exactly what the program computed
    for i in range(n):
        req(i, FLUSH, None, nph)
    ph = nph + 1
    for i in range(n):
        req(i, INV, None, ph)
        for _ in range(rng.randrange(0, 6)):
            req(i, READ, rng.choice(words), ph)
    inst = []
    for i in range(n):
        t = timing(rng, Prof(), cf[i].nlines + 20 + 12 * len(reqs[i]))
        inst.append(dict(reqs=reqs[i], resets=[], **t))
    sc = dict(cfgs=[c.tolist() for c in cf], mem_seed=rng.getrandbits(63), xseed=rng.getrandbits(30) | 1,
              drain=16, mem_at_reset=0, ext=[], inst=inst, final_flush=1)
    sc["max_cycles"] = bound(sc)
    return sc


def legal(sc, racing=False):
    """Is the program race-free? (The rules the generator follows; used to keep
    minimised programs meaningful.) racing: words used by AMOs may be read as well."""
    cf = [Cfg(*c) for c in sc["cfgs"]]
    n = len(cf)
    own, stale = {}, [set() for _ in range(n)]
    alone = [set() for _ in range(n)]
    for ph in sorted({r[6] for s in sc["inst"] for r in s["reqs"]}):
        wr, rd, am = {}, {}, set()
        ops = [[r for r in s["reqs"] if r[6] == ph] for s in sc["inst"]]
        for i in range(n):
            for r in ops[i]:
                t, w = r[1], r[3] >> 2
                if t == WRITE:
                    wr.setdefault(w, set()).add(i)
                elif t == READ:
                    rd.setdefault(w, set()).add(i)
                elif t < INV:
                    am.add(w)
        for w, o in wr.items():
            if len(o | rd.get(w, set())) > 1 or w in am or not {own.get(w)} <= o | {None}:
                return False
        for w in am:
            if w in rd and not racing or own.get(w) is not None:
                return False
        for w, o in rd.items():
            if own.get(w) is not None and o != {own[w]}:
                return False
        start = {w for w, o in own.items() if o is not None}
        for i in range(n):
            for r in ops[i]:
                t, w = r[1], r[3] >> 2
                if t == WRITE:
                    if (r[4] or cf[i].dbytes) < 4 and w in stale[i]:
                        return False
                    stale[i].discard(w)
                    own[w] = i
                elif t == READ and w in stale[i] and not (racing and w in am):
                    return False
                elif t == FLUSH:
                    for w in own:
                        if own[w] == i:
                            own[w] = None
                            start.add(w)
                elif t == INV:
                    stale[i] = {w for w in stale[i] if w in start or w in am or wr.get(w, {i}) != {i}}
                if t < INV:
                    l = r[3] // cf[i].line
                    if t in (READ, WRITE):
                        alone[i].discard(l)
                    else:
                        alone[i].add(l)
                        stale[i] = {w for w in stale[i] if (w << 2) // cf[i].line != l
                                    or w in start or w in am or wr.get(w, {i}) != {i}}
        for w, o in wr.items():
            for i in range(n):
                if i not in o:
                    stale[i].add(w)
        for w in am:
            for i in range(n):
                stale[i].add(w)
        for i in range(n):
            stale[i] = {w for w in stale[i] if own.get(w) is not None or (w << 2) // cf[i].line not in alone[i]}
    return True


def amo_program(rng):
    """Caches racing AMOs on few words, with private data in the same lines."""
    n = rng.choice([2, 2, 3, 4])
    pool = groups()
    same = rng.random() < .6
    c0 = rng.choice(pool[:5] if rng.random() < .7 else pool)
    cf = [c0 if same else rng.choice(pool) for _ in range(n)]
    big = max(cf, key=lambda c: c.line)
    lines = lines_for(rng, big)[:rng.choice([1, 1, 2])]
    words = sorted({(l >> 2) + j for l in lines for j in range(big.line // 4)})
    rng.shuffle(words)
    shared = words[:rng.choice([1, 1, 2])]
    private = [words[len(shared) + i::n][:3] for i in range(n)]
    mix = rng.choice([[6, 2, 2, .3, .3], [9, 1, 0, 0, 0], [4, 3, 3, .6, .6]])
    kinds = rng.choice([None, None, [3], [6], [3, 6, 11]])
    reqs = [[] for _ in range(n)]

    def req(i, t, w, phase, gap=0):
        c = cf[i]
        a = w << 2
        r = mk_req(rng, c, t, a // c.line * c.line, Prof(wide=False), gap, phase, words=[a % c.line >> 2])
        if t in (INV, FLUSH):
            r[3] = 0
        reqs[i].append(r)

    gaps = rng.choice([[0], [0, 0, 3], [0, 9]])
    look = rng.choice([0, .1, .3])             # plain reads of a word just after an AMO of one's own on its line
    for i in range(n):
        for _ in range(rng.randrange(2, 15)):
            k = rng.choices(range(5), mix)[0]
            g = rng.choice(gaps)
            if k == 0:
                w = rng.choice(shared)
                req(i, rng.choice(kinds) if kinds else pick_type(rng, "amo"), w, 0, g)
                if rng.random() < look:
                    req(i, READ, w, 0, rng.choice(gaps))
            elif k in (1, 2) and private[i]:
                req(i, READ if k == 1 else WRITE, rng.choice(private[i]), 0, g)
            elif k == 3:
                req(i, FLUSH, 0, 0, g)
            elif k == 4:
                req(i, INV, 0, 0, g)
    for i in range(n):
        req(i, FLUSH, 0, 1)
        req(i, INV, 0, 2)
        for w in shared + private[(i + 1) % n][:1]:
            req(i, READ, w, 3)
    inst = []
    for i in range(n):
        t = timing(rng, Prof(), cf[i].nlines + 20 + 12 * len(reqs[i]))
        inst.append(dict(reqs=reqs[i], resets=[], **t))
    sc = dict(cfgs=[c.tolist() for c in cf], mem_seed=rng.getrandbits(63), xseed=rng.getrandbits(30) | 1,
              drain=16, mem_at_reset=0, ext=[], inst=inst)
    sc["max_cycles"] = bound(sc)
    return sc


def amo_legal(sc):
    return legal(sc, True)
