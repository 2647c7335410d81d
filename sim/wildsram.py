"""An SRAM that keeps its contract and nothing more: what it reads is right in
the cycle after the read, and arbitrary in every other cycle.

In an idle cycle the output is, as a free-running sequence (whose start is
power-up state, so part of the seed) decides: held, zero, all ones, the write
data, the word now addressed, the word of location 0, or noise. Installed in
place of /repo's SramPRTL before the cache is imported.
"""
from pymtl3 import *


class WildSram(Component):
    def construct(s, num_bits=32, num_words=256):
        T = mk_bits(num_bits)
        s.port0_val = InPort()
        s.port0_type = InPort()
        s.port0_idx = InPort(mk_bits(clog2(num_words)))
        s.port0_wdata = InPort(T)
        s.port0_wben = InPort(T)
        s.port0_rdata = OutPort(T)
        s.ram = [Wire(T) for _ in range(num_words)]
        s.dout = Wire(T)
        s.wild = Wire(Bits16)
        s.next = Wire(T)

        @update
        def up_next():
            if s.port0_val & ~s.port0_type:
                s.next @= s.ram[s.port0_idx]
            elif s.wild[13:16] == 0:
                s.next @= s.dout
            elif s.wild[13:16] == 1:
                s.next @= 0
            elif s.wild[13:16] == 2:
                s.next @= ~T(0)
            elif s.wild[13:16] == 3:
                s.next @= s.port0_wdata
            elif s.wild[13:16] == 4:
                s.next @= s.ram[s.port0_idx]
            elif s.wild[13:16] == 5:
                s.next @= s.ram[0]
            elif s.wild[13:16] == 6:
                s.next @= s.port0_wdata ^ s.dout
            else:
                s.next @= ~s.dout

        @update_ff
        def up_ff():
            s.wild <<= s.wild * 25173 + 13849
            s.dout <<= s.next
            if s.port0_val & s.port0_type:
                s.ram[s.port0_idx] <<= (s.ram[s.port0_idx] & ~s.port0_wben) | (s.port0_wdata & s.port0_wben)

        s.port0_rdata //= s.dout


def install():
    import sram.SramPRTL as m
    m.SramPRTL = WildSram
