"""Cache configurations and message layouts, taken from /repo's own generator."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import warnings
warnings.filterwarnings("ignore")


class Cfg:
    """One cache instance: geometry and bus widths (all in bytes / bits)."""
    __slots__ = ("size", "asso", "clw", "dbw", "abw", "obw")

    def __init__(self, size, asso, clw, dbw, abw=32, obw=8):
        self.size, self.asso, self.clw = size, asso, clw
        self.dbw, self.abw, self.obw = dbw, abw, obw

    def key(self):
        return f"s{self.size}_w{self.asso}_l{self.clw}_d{self.dbw}_a{self.abw}_o{self.obw}"

    def tolist(self):
        return [self.size, self.asso, self.clw, self.dbw, self.abw, self.obw]

    @property
    def line(self):
        return self.clw // 8

    @property
    def nlines(self):
        return self.size * 8 // self.clw

    @property
    def sets(self):
        return self.nlines // self.asso

    @property
    def dbytes(self):
        return self.dbw // 8

    @property
    def lenbits(self):
        return (self.dbytes - 1).bit_length()

    def lens(self):
        """Access sizes in bytes a request of this width can name."""
        return [1 << i for i in range(self.lenbits + 1)]

    def enc_len(self, n):
        return n & (self.dbytes - 1)

    def index(self, addr):
        return (addr // self.line) % self.sets

    def tag(self, addr):
        return addr // self.line // self.sets


def mk_types(c):
    from mem_ifcs.MemMsg import mk_mem_msg
    creq, cresp = mk_mem_msg(c.obw, c.abw, c.dbw, has_wr_mask=False)
    mreq, mresp = mk_mem_msg(c.obw, c.abw, c.clw, has_wr_mask=True)
    return creq, cresp, mreq, mresp


def mk_cache(c):
    from blocking_cache.BlockingCacheRTL import BlockingCacheRTL
    return BlockingCacheRTL(*mk_types(c), c.size, c.asso)


FIELDS = ("type_", "opaque", "addr", "len", "test", "wr_mask", "data")


def layout(T):
    """{field: (lsb, width)} of a bitstruct (first field is most significant)."""
    from pymtl3.datatypes.bitstructs import _FIELDS
    fields = list(getattr(T, _FIELDS).items())
    out, pos = {}, 0
    for name, ft in reversed(fields):
        out[name] = (pos, ft.nbits)
        pos += ft.nbits
    out["_n"] = pos
    return out
