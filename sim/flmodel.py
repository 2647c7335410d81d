"""The repository's functional-level model, driven with the requests the RTL
accepted, in the order it accepted them."""
from cfg import Cfg, mk_types
from engine import REQ, RESP, READ, WRITE, INV, FLUSH, AMO_LO, AMO_HI, Memory, show, TNAME


def run(c, sc, reqs, nbanks=0, bank=0):
    """nbanks > 0: the model of bank number `bank`; the addresses are the RTL's
    with the bank number inserted above the offset."""
    from pymtl3 import mk_bits, Bits32
    from blocking_cache.BlockingCacheFL import ModelCache
    T = mk_types(c)
    D, L = mk_bits(c.dbw), mk_bits(c.lenbits)
    mem = Memory(sc["mem_seed"])
    lo, bits = c.line.bit_length() - 1, max(nbanks, 1).bit_length() - 1
    place = lambda a: ((a >> lo << bits | bank) << lo) | a & (c.line - 1)
    init = []
    for ln in sorted({r[3] // c.line for r in reqs if r[1] < INV}):
        for k in range(c.line // 4):
            a = ln * c.line + 4 * k
            init += [place(a), Bits32(mem.rd(a >> 2))]
    fl = ModelCache(c.size, c.asso, nbanks, *T, init)
    for _, t, o, a, ln, d, _p in reqs:
        a, ln = Bits32(place(a) if t < INV else 0), L(ln)
        if t == READ:
            fl.read(a, o, ln)
        elif t == WRITE:
            fl.write(a, D(d), o, ln)
        elif AMO_LO <= t <= AMO_HI:
            fl.amo(a, D(d), o, ln, t)
        elif t == INV:
            fl.invalidate(o)
        else:
            fl.flush(o)
    all_ = fl.get_transactions()
    for x, (_, t, o, a, ln, d, _p) in zip(all_[::2], reqs):
        want = (t, o, place(a) if t < INV else 0, ln, 0 if t in (READ, INV, FLUSH) else
                d & 0xffffffff if AMO_LO <= t <= AMO_HI else d)
        if (int(x.type_), int(x.opaque), int(x.addr), int(x.len), int(x.data)) != want:
            raise ValueError(f"records {x} for the request {want}")
    return [(int(x.type_), int(x.opaque), int(x.test), int(x.len), int(x.data)) for x in all_[1::2]]


def compare(sc, tr, banks=(0, 0)):
    c = Cfg(*sc["cfgs"][0])
    all_ = sc["inst"][0]["reqs"]
    reqs = [all_[e[3]] for e in tr if e[0] == REQ]
    try:
        if any(r[3] * banks[0] >> 32 for r in reqs):
            banks = 0, 0
        want = run(c, sc, reqs, *banks)
    except Exception as x:
        return f"the FL model fails: {type(x).__name__}: {str(x)[:200]}"
    got = [(e[4], e[5], e[6], e[7], int.from_bytes(e[9], "little"), e) for e in tr if e[0] == RESP]
    if len(want) != len(reqs):
        return f"the FL model answered {len(want)} of {len(reqs)} requests"
    for k, (w, g) in enumerate(zip(want, got)):
        if w != g[:5]:
            names = ("type", "opaque", "hit flag", "len", "data")
            bad = ", ".join(f"{n} {hex(y)} / {hex(x)}" for n, x, y in zip(names, w, g) if x != y)
            r = reqs[k]
            return f"request #{k} {TNAME.get(r[1], r[1])} addr={r[3]:#x} len={r[4]}: RTL / FL answer {bad} ({show(g[5]).strip()})"
    if len(got) < len(want):
        return f"the FL model answers all {len(want)} requests, the RTL only {len(got)}"
    return None
