"""The SRAM port against a reference array."""
import ctypes

from engine import DutError


def verilog(lib, case):
    b, w = case["sram"]
    nw = max(1, (b + 31) // 32)
    ops = case["ops"] + [[0, 0, 0, 0, 0, 0]]
    flat = []
    for r, v, t, i, d, m in ops:
        flat += [r, v, t, i] + [d >> (32 * k) & 0xffffffff for k in range(nw)] + [m >> (32 * k) & 0xffffffff for k in range(nw)]
    arr = (ctypes.c_uint32 * len(flat))(*flat)
    out = (ctypes.c_uint32 * (nw * len(ops)))()
    lib.sram_run(ctypes.c_uint64(case["xseed"]), arr, len(ops), nw, out)
    return [sum(out[j * nw + k] << (32 * k) for k in range(nw)) & ((1 << b) - 1) for j in range(len(ops))]


def pymtl(case):
    from pymtl3 import DefaultPassGroup
    from sram.SramPRTL import SramPRTL
    b, w = case["sram"]
    try:
        m = SramPRTL(b, w)
        m.elaborate()
        m.apply(DefaultPassGroup())
    except Exception as x:
        raise DutError(f"SRAM {b} x {w} cannot be generated: {type(x).__name__}: {' '.join(str(x).split())[:300]}")
    out = []
    for r, v, t, i, d, e in case["ops"] + [[0, 0, 0, 0, 0, 0]]:
        m.reset @= r
        m.port0_val @= v
        m.port0_type @= t
        m.port0_idx @= i
        m.port0_wdata @= d
        m.port0_wben @= e
        m.sim_eval_combinational()
        out.append(int(m.port0_rdata))
        m.sim_tick()
    return out


def judge(case, eng):
    b, w = case["sram"]
    key = f"{case.get('kind', 'sram')}{b}x{w}"
    if key not in eng.libs and case.get("kind") == "hard":
        return None                             # no such wrapper: nothing to say
    if eng.force_py and case.get('kind') != 'hard' or key not in eng.libs:
        out, who = pymtl(case), "PyMTL model"
    else:
        out, who = verilog(eng.sram(key), case), "wrapper Verilog" if case.get("kind") == "hard" else "translated Verilog"
    mem = {}                                    # idx -> (known bits, value)
    want = None
    for j, (r, v, t, i, d, m) in enumerate(case["ops"] + [[0, 0, 0, 0, 0, 0]]):
        if want and (out[j] ^ want[1]) & want[0]:
            return (f"cycle {j}: the {who} of the {w} x {b} bit SRAM returned {out[j]:#x} for location {want[2]}, "
                    f"which holds {want[1]:#x} (written bits {want[0]:#x})")
        want = None
        if v and t:
            k, x = mem.get(i, (0, 0))
            mem[i] = (k | m, x & ~m | d & m)
        elif v:
            k, x = mem.get(i, (0, 0))
            want = (k, x, i)
    return None
