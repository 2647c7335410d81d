From 1bcb8300600eec9af3afb960c9e23c712779deba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 1/2] fix: mark every word of a multi-word write dirty

A write of 8 or 16 bytes only set the dirty bit of its first word, so the other
words were lost when the line was evicted, flushed or refilled after an
invalidation.
---
 blocking_cache/units/UpdateTagArrayUnit.py | 26 +++++------
 blocking_cache/units/arithmetics.py        | 51 ++++++++++++++++++----
 2 files changed, 53 insertions(+), 24 deletions(-)

diff --git a/blocking_cache/units/UpdateTagArrayUnit.py b/blocking_cache/units/UpdateTagArrayUnit.py
index d81bd35..a6b1286 100644
--- a/blocking_cache/units/UpdateTagArrayUnit.py
+++ b/blocking_cache/units/UpdateTagArrayUnit.py
@@ -12,6 +12,8 @@ from pymtl3 import *
 
 from ..cache_constants import *
 
+from .arithmetics import WriteWordMaskGen
+
 class UpdateTagArrayUnit( Component ):
   """
   Selects the tag array write data depending on command
@@ -25,6 +27,11 @@ class UpdateTagArrayUnit( Component ):
     s.wr_len      = InPort (p.bitwidth_len)       # for double-word CIFER hack
     s.out         = OutPort(p.StructTagArray)
 
+    # The words covered by a write
+    s.word_mask = m = WriteWordMaskGen( p )
+    m.offset //= s.offset
+    m.len_   //= s.wr_len
+
     @update
     def new_tag_array_entry_logic():
       s.out.tag @= s.old_entries[s.way].tag
@@ -32,29 +39,18 @@ class UpdateTagArrayUnit( Component ):
       s.out.dty @= s.old_entries[s.way].dty
 
       if s.cmd == UpdateTagArrayUnit_CMD_WR_REFILL:
-        # Refill on a write, mark the word being written as dirty, the
+        # Refill on a write, mark the words being written as dirty, the
         # rest is clean
         s.out.val @= CACHE_LINE_STATE_VALID
-        s.out.dty @= 0 | s.refill_dty
-        s.out.dty[ s.offset[2 : p.bitwidth_offset] ] @= 1
-        # moyang: this is a hack for CIFER project. When len == 3, we
-        # zero-extend the 32-bit word to a 64-bit double word, so we need to
-        # set the dirty bits of two words
-        if s.wr_len == 3:
-          s.out.dty[ s.offset[2 : p.bitwidth_offset] + 1 ] @= 1
+        s.out.dty @= s.refill_dty | s.word_mask.out
       elif s.cmd == UpdateTagArrayUnit_CMD_RD_REFILL:
         # Refill for a read, simply mark valid bit and clear the dirty
         # bits
         s.out.val @= CACHE_LINE_STATE_VALID
         s.out.dty @= 0 | s.refill_dty
       elif s.cmd == UpdateTagArrayUnit_CMD_WR_HIT:
-        # Hit a clean word, mark the word as dirty
-        s.out.dty[ s.offset[2 : p.bitwidth_offset] ] @= 1
-        # moyang: this is a hack for CIFER project. When len == 3, we
-        # zero-extend the 32-bit word to a 64-bit double word, so we need to
-        # set the dirty bits of two words
-        if s.wr_len == 3:
-          s.out.dty[ s.offset[2 : p.bitwidth_offset] + 1 ] @= 1
+        # Hit a clean word, mark the words being written as dirty
+        s.out.dty @= s.old_entries[s.way].dty | s.word_mask.out
       elif s.cmd == UpdateTagArrayUnit_CMD_CLEAR:
         # Clear the entire entry
         s.out.tag @= 0
diff --git a/blocking_cache/units/arithmetics.py b/blocking_cache/units/arithmetics.py
index d3266ca..816033d 100644
--- a/blocking_cache/units/arithmetics.py
+++ b/blocking_cache/units/arithmetics.py
@@ -230,6 +230,39 @@ class WriteBitEnGen( Component ):
     msg = f'o[{s.out}] '
     return msg
 
+class WriteWordMaskGen( Component ):
+  """
+  Decodes the words of the cacheline which a write request covers, i.e. the
+  words whose dirty bits it has to set
+  """
+  def construct(s, p):
+    s.offset = InPort (p.bitwidth_offset)
+    s.len_   = InPort (p.bitwidth_len)
+    s.out    = OutPort(p.bitwidth_dirty)
+
+    one_word   = p.BitsDirty( 1 )
+    two_words  = p.BitsDirty( 2**min( 2, p.bitwidth_dirty ) - 1 )
+    four_words = p.BitsDirty( 2**min( 4, p.bitwidth_dirty ) - 1 )
+
+    s.mask = Wire(p.bitwidth_dirty)
+
+    # The order of the cases matters: the largest access of a given data
+    # bitwidth is truncated to 0 (see WriteBitEnGen)
+    @update
+    def mask_logic():
+      s.mask @= one_word
+      if s.len_ == 3:
+        # moyang: this is a hack for CIFER project. When len == 3, we zero-extend the 32-bit word to 64-bit
+        s.mask @= two_words
+      elif s.len_ == trunc(Bits32(4), p.bitwidth_len):
+        s.mask @= one_word
+      elif s.len_ == trunc(Bits32(8), p.bitwidth_len):
+        s.mask @= two_words
+      elif s.len_ == trunc(Bits32(16), p.bitwidth_len):
+        s.mask @= four_words
+
+    s.out //= lambda: s.mask << zext(s.offset[2 : p.bitwidth_offset], p.bitwidth_dirty)
+
 class TagArrayRDataProcessUnit( Component ):
   """
   Processes all incoming data from the tag array(s).
@@ -250,19 +283,19 @@ class TagArrayRDataProcessUnit( Component ):
     s.line_dirty = OutPort(p.associativity) # If the line is dirty
     s.tag_entires= [ OutPort(p.StructTagArray) for _ in range(p.associativity) ]
 
+    # The words covered by a write
+    s.word_mask = m = WriteWordMaskGen( p )
+    m.offset //= s.offset
+    m.len_   //= s.wr_len
+
     # word dirty logic
     @update
     def word_dirty_logic():
       for i in range(p.associativity):
-        # moyang: this is a CIFER hack. When writing a double word (zero
-        # extending a 32-bit word to a 64-bit double word), we only consider the
-        # double word dirty if both 32-bit words are dirty, because we need to
-        # stall the pipeline to set the two dirty bits if any of them is not
-        # already dirty.
-        if s.wr_len == 3:
-          s.word_dirty[i] @= s.tag_array[i].dty[ s.offset[2 : p.bitwidth_offset] ] & s.tag_array[i].dty[ s.offset[2 : p.bitwidth_offset] + 1 ]
-        else:
-          s.word_dirty[i] @= s.tag_array[i].dty[ s.offset[2 : p.bitwidth_offset] ]
+        # A write that covers several words only hits dirty data if all of these
+        # words are dirty, because we need to stall the pipeline to set the
+        # dirty bits if any of them is not already dirty.
+        s.word_dirty[i] @= (s.tag_array[i].dty & s.word_mask.out) == s.word_mask.out
 
     @update
     def line_dirty_logic():
-- 
2.43.0


From ac631553e1262fb4b44212ca19d15953273d47fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 2/2] fix: let the FL model handle an AMO to a line it has not
 seen

The line was entered under a Bits key and looked up under a signed int, so the
first access to a line being an AMO, or any AMO to a high address, raised a
KeyError.
---
 blocking_cache/BlockingCacheFL.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blocking_cache/BlockingCacheFL.py b/blocking_cache/BlockingCacheFL.py
index 1a3cfb5..488699a 100644
--- a/blocking_cache/BlockingCacheFL.py
+++ b/blocking_cache/BlockingCacheFL.py
@@ -283,17 +283,17 @@ class ModelCache:
   def amo(self, addr, value, opaque, len_, func):
     # AMO operations are on the word level only
     self.tracker.amo_req(addr)
-    new_addr = addr[self.offset_end:32]
+    new_addr = int(addr[self.offset_end:32])
     offset = int(addr[self.offset_start:self.offset_end])
     if new_addr not in self.mem:
       self.mem[new_addr] = Bits(self.mem_bitwidth_data, 0)
-    ret = self.mem[new_addr.int()][offset * 8 : (offset + 4) * 8]
+    ret = self.mem[new_addr][offset * 8 : (offset + 4) * 8]
     
     value = trunc(value, 32)
     amo_out = AMO_FUNS[ int(func) ]( ret, value )
     ret = zext( ret, self.cache_bitwidth_data )
     value = zext( value, self.cache_bitwidth_data )
-    self.mem[new_addr.int()][offset * 8 : (offset + 4) * 8] = amo_out
+    self.mem[new_addr][offset * 8 : (offset + 4) * 8] = amo_out
     
     self.transactions.append(req (self.CacheReqType, func, opaque, addr, len_, value))
     self.transactions.append(resp(self.CacheRespType,func, opaque, 0,    len_, ret))
-- 
2.43.0

