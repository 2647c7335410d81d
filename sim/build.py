"""Translate /repo's cache generator to Verilog and compile it for simulation.

One shared object per configuration; everything is built from the current
working tree into a private scratch directory.
"""
import ctypes
import hashlib
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from cfg import REPO, Cfg, mk_cache

HERE = os.path.dirname(os.path.abspath(__file__))
VINC = "/usr/share/verilator/include"
CXX = "clang++" if shutil.which("clang++") else "g++"
CXXF = ["-O2", "-fPIC", "-fvisibility=hidden", "-w", "-std=c++17"]


def tree_hash():
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(REPO)):
        dirs[:] = sorted(x for x in dirs if not x.startswith(".") and x not in ("__pycache__", "doc"))
        for f in sorted(files):
            if f.endswith((".py", ".v")):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    for f in ("duttop.cpp", "driver.cpp", "build.py", "sramtop.cpp", "macros.v", "wildsram.py"):
        h.update(open(os.path.join(HERE, f), "rb").read())
    return h.hexdigest()[:16]


TRANS = r"""
import sys, os
sys.path.insert(0, {here!r})
from cfg import Cfg, mk_cache, REPO
{before}
from pymtl3.passes.backends.verilog import VerilogTranslationPass as V
os.chdir({out!r})
m = {make}
m.set_metadata(V.enable, True)
m.set_metadata(V.explicit_file_name, "Dut")
m.set_metadata(V.explicit_module_name, "Dut")
m.elaborate()
m.apply(V())
"""


# What is put in place of a part of the cache before it is elaborated.
BEFORE = {
    "wild": "import wildsram; wildsram.install()",
    "plain": "import blocking_cache.BlockingCacheRTL, blocking_cache.units.muxes as m\n"
             "fast = m.FastDataSelectMux\n"
             "for x in list(sys.modules.values()):\n"
             "  if getattr(x, 'FastDataSelectMux', None) is fast: x.FastDataSelectMux = m.DataSelectMux",
}


# Connects the pins the way SramPRTL does.
HARD = """
module HardTop (input clk, input reset, input port0_val, input port0_type, input [$clog2({w})-1:0] port0_idx,
  input [{b}-1:0] port0_wdata, input [{b}-1:0] port0_wben, output [{b}-1:0] port0_rdata);
  SramGenericPRTL #(.num_bits({b}), .num_words({w})) u (.clk(clk), .reset(reset), .CE1(clk), .CSB1(~port0_val),
    .OEB1(1'b0), .WBM1(port0_wben), .WEB1(~port0_type), .A1(port0_idx), .I1(port0_wdata), .O1(port0_rdata));
endmodule
"""


class Unit:
    """Something to translate and compile. kind: pass (a cache, through the
    translation pass), wild (the same, on the SRAM of wildsram.py), plain (the same,
    with /repo's DataSelectMux for FastDataSelectMux), cli (a cache,
    through /repo's own translate.py), sram (the PyMTL SRAM,
    translated), hard (the Verilog SRAM wrapper)."""

    def __init__(self, kind, cfg, replace=False):
        self.kind, self.cfg, self.replace = kind, cfg, replace
        if kind in ("sram", "hard"):
            self.key, self.size = f"{kind}{cfg[0]}x{cfg[1]}", cfg[0] * cfg[1] // 64
        else:
            self.key = {"pass": "", "cli": "cli_", "wild": "wild_", "plain": "plain_"}[kind] + ("rs_" if replace else "") + cfg.key()
            self.size = cfg.nlines

    def translate(self, out):
        """Shell command producing Dut.v in `out`."""
        py = f"PYTHONDONTWRITEBYTECODE=1 PYTHONPATH={REPO} {sys.executable} -W ignore"
        if self.kind == "cli":
            c = self.cfg
            cmd = f"{py} {REPO}/blocking_cache/translate.py"
            if c.tolist() != [4096, 2, 128, 32, 32, 8]:          # the generator's defaults
                cmd += (f" --size {c.size} --clw {c.clw} --dbw {c.dbw} "
                        f"--abw {c.abw} --obw {c.obw} --asso {c.asso}")
            top = f"BlockingCache_{c.size}_{c.clw}_{c.abw}_{c.dbw}_{c.asso}"
            if self.replace:
                return f"{cmd} --replace-sram && cat {top}.v {HERE}/macros.v > Dut.v", top
            return f"{cmd} && mv {top}*.v Dut.v", top
        if self.kind == "hard":
            with open(os.path.join(out, "top.v"), "w") as f:
                f.write(HARD.format(b=self.cfg[0], w=self.cfg[1]))
            return f"cat {REPO}/sram/brg_gf14_sram_generic_synopsys.v {HERE}/macros.v top.v > Dut.v", "HardTop"
        if self.kind == "sram":
            make = f"__import__('sram.SramPRTL', fromlist=['x']).SramPRTL({self.cfg[0]}, {self.cfg[1]})"
        else:
            make = f"mk_cache(Cfg(*{self.cfg.tolist()!r}))"
        with open(os.path.join(out, "t.py"), "w") as f:
            f.write(TRANS.format(here=HERE, out=out, make=make,
                                 before=BEFORE.get(self.kind, "")))
        return f"{py} t.py && (ls Dut.v || mv $(ls Dut* | head -1) Dut.v)", "Dut"

    def start(self, out):
        os.makedirs(out)
        top_cpp = "sramtop.cpp" if self.kind in ("sram", "hard") else "duttop.cpp"
        tr, top = self.translate(out)
        vis = " ".join(x for x in CXXF if "visibility" not in x)
        cmd = (
            f"cd {out} && {tr} && "
            f"verilator --cc Dut.v --top-module {top} -O3 --x-initial unique --x-assign unique "
            "-Wno-fatal -Wno-lint -Wno-style -Wno-UNOPTFLAT --unroll-count 1000000 "
            "--unroll-stmts 1000000 --prefix VDut --Mdir obj --output-split 0 > ver.log 2>&1 && "
            f"cat obj/*.cpp > obj/all.cc && cat {HERE}/{top_cpp} >> obj/all.cc && "
            f"{CXX} {vis} -I{VINC} -Iobj -c obj/all.cc -o dut.o"
        )
        return subprocess.Popen(["bash", "-c", cmd], stdout=open(os.path.join(out, "log"), "w"),
                                stderr=subprocess.STDOUT, start_new_session=True)


class Built:
    def __init__(self, root, libs, failed, secs):
        self.root, self.libs, self.failed, self.secs = root, libs, failed, secs


def build(units, jobs=None, timeout=300, root=None):
    """Build every unit (a Cfg means the cache through the translation pass).
    A unit that does not translate or compile is listed in .failed (key -> log)."""
    t0 = time.time()
    jobs = jobs or (os.cpu_count() or 4)
    cache = os.environ.get("VERIF_BUILD_CACHE")
    if root is None:
        if cache:
            root = os.path.join(cache, tree_hash())
            os.makedirs(root, exist_ok=True)
        else:
            root = tempfile.mkdtemp(prefix="vsim_")
    rt, drv = os.path.join(root, "rt.o"), os.path.join(root, "driver.so")
    nul = dict(stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    running, libs, failed, made, queue = [], {}, {}, [], []
    if not os.path.exists(rt):
        src = os.path.join(root, "rt.cc")
        with open(src, "w") as f:
            f.write('#include "verilated.cpp"\n#include "verilated_threads.cpp"\n')
        running.append(("rt", subprocess.Popen([CXX] + [x for x in CXXF if "visib" not in x] + ["-I" + VINC, "-c", src, "-o", rt], **nul)))
    if not os.path.exists(drv):
        running.append(("drv", subprocess.Popen([CXX, "-O2", "-fPIC", "-shared", "-w", "-std=c++17",
                        os.path.join(HERE, "driver.cpp"), "-o", drv, "-ldl"], **nul)))
    for u in units:
        u = Unit("pass", u) if isinstance(u, Cfg) else u
        so = os.path.join(root, u.key + ".so")
        if os.path.exists(so):
            libs[u.key] = so
        elif u.key not in [q.key for q in queue]:
            queue.append(u)
    queue.sort(key=lambda u: -u.size)
    end = t0 + timeout
    while queue or running:
        still = []
        for u, p in running:
            if p.poll() is None:
                if time.time() > end:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    failed[u if isinstance(u, str) else u.key] = "build timeout"
                else:
                    still.append((u, p))
            elif isinstance(u, Unit):
                if p.returncode == 0:
                    made.append(u)
                else:
                    lg = os.path.join(root, "b_" + u.key)
                    with open(os.path.join(lg, "log"), errors="replace") as f:
                        txt = f.read()[-1500:]
                    v = os.path.join(lg, "ver.log")
                    if os.path.exists(v):
                        with open(v, errors="replace") as f:
                            txt += "\n" + "\n".join(x for x in f.read().splitlines() if "Error" in x)[-1500:]
                    failed[u.key] = txt
        running = still
        while queue and len(running) < jobs and time.time() < end:
            u = queue.pop(0)
            d = os.path.join(root, "b_" + u.key)
            shutil.rmtree(d, ignore_errors=True)
            running.append((u, u.start(d)))
        if queue and time.time() >= end:
            for u in queue:
                failed[u.key] = "build timeout"
            queue = []
        time.sleep(0.02)
    for u in made:
        so = os.path.join(root, u.key + ".so")
        d = os.path.join(root, "b_" + u.key)
        tmp = so + f".{os.getpid()}"
        r = subprocess.run([CXX, "-shared", "-Wl,-Bsymbolic", "-o", tmp, os.path.join(d, "dut.o"), rt, "-Wl,-z,defs", "-latomic"],
                           capture_output=True, text=True)
        if r.returncode == 0:
            os.rename(tmp, so)
            libs[u.key] = so
        else:
            failed[u.key] = r.stderr[-1500:]
        shutil.rmtree(d, ignore_errors=True)
    return Built(root, libs, failed, time.time() - t0)


if __name__ == "__main__":
    b = build([Cfg(64, 2, 128, 32), Unit("sram", (32, 16)), Unit("cli", Cfg(4096, 2, 128, 32), True),
               Unit("cli", Cfg(4096, 1, 128, 32), True), Unit("cli", Cfg(8192, 2, 128, 32), True),
               Unit("cli", Cfg(64, 2, 128, 64, 40, 6))])
    print(b.root, b.libs, b.failed, b.secs)
