From e9b71c3d438528c72fd5d94254f80d12b8f26444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 1/5] fix: mark every word of a wide store dirty

With 64- or 128-bit request data, a full-width (len 0) or 8-byte store set the
dirty bit of its first word only, so the other words were lost when the line
was evicted, flushed or merged.
---
 blocking_cache/units/UpdateTagArrayUnit.py | 23 +++++-----
 blocking_cache/units/arithmetics.py        | 51 ++++++++++++++++++----
 2 files changed, 53 insertions(+), 21 deletions(-)

diff --git a/blocking_cache/units/UpdateTagArrayUnit.py b/blocking_cache/units/UpdateTagArrayUnit.py
index d81bd35..ec07827 100644
--- a/blocking_cache/units/UpdateTagArrayUnit.py
+++ b/blocking_cache/units/UpdateTagArrayUnit.py
@@ -11,6 +11,7 @@ Date:   17 March 2020
 from pymtl3 import *
 
 from ..cache_constants import *
+from .arithmetics      import WordMaskGen
 
 class UpdateTagArrayUnit( Component ):
   """
@@ -25,6 +26,13 @@ class UpdateTagArrayUnit( Component ):
     s.wr_len      = InPort (p.bitwidth_len)       # for double-word CIFER hack
     s.out         = OutPort(p.StructTagArray)
 
+    # Words of the cache line written by the current request
+    s.wr_words = Wire(p.bitwidth_dirty)
+    s.wr_word_mask = m = WordMaskGen(p)
+    m.offset //= s.offset
+    m.len_   //= s.wr_len
+    m.out    //= s.wr_words
+
     @update
     def new_tag_array_entry_logic():
       s.out.tag @= s.old_entries[s.way].tag
@@ -35,13 +43,7 @@ class UpdateTagArrayUnit( Component ):
         # Refill on a write, mark the word being written as dirty, the
         # rest is clean
         s.out.val @= CACHE_LINE_STATE_VALID
-        s.out.dty @= 0 | s.refill_dty
-        s.out.dty[ s.offset[2 : p.bitwidth_offset] ] @= 1
-        # moyang: this is a hack for CIFER project. When len == 3, we
-        # zero-extend the 32-bit word to a 64-bit double word, so we need to
-        # set the dirty bits of two words
-        if s.wr_len == 3:
-          s.out.dty[ s.offset[2 : p.bitwidth_offset] + 1 ] @= 1
+        s.out.dty @= s.wr_words | s.refill_dty
       elif s.cmd == UpdateTagArrayUnit_CMD_RD_REFILL:
         # Refill for a read, simply mark valid bit and clear the dirty
         # bits
@@ -49,12 +51,7 @@ class UpdateTagArrayUnit( Component ):
         s.out.dty @= 0 | s.refill_dty
       elif s.cmd == UpdateTagArrayUnit_CMD_WR_HIT:
         # Hit a clean word, mark the word as dirty
-        s.out.dty[ s.offset[2 : p.bitwidth_offset] ] @= 1
-        # moyang: this is a hack for CIFER project. When len == 3, we
-        # zero-extend the 32-bit word to a 64-bit double word, so we need to
-        # set the dirty bits of two words
-        if s.wr_len == 3:
-          s.out.dty[ s.offset[2 : p.bitwidth_offset] + 1 ] @= 1
+        s.out.dty @= s.wr_words | s.old_entries[s.way].dty
       elif s.cmd == UpdateTagArrayUnit_CMD_CLEAR:
         # Clear the entire entry
         s.out.tag @= 0
diff --git a/blocking_cache/units/arithmetics.py b/blocking_cache/units/arithmetics.py
index d3266ca..ebfbabb 100644
--- a/blocking_cache/units/arithmetics.py
+++ b/blocking_cache/units/arithmetics.py
@@ -230,6 +230,39 @@ class WriteBitEnGen( Component ):
     msg = f'o[{s.out}] '
     return msg
 
+class WordMaskGen( Component ):
+  """
+  Decodes which 32-bit words of a cache line a request accesses, so that a
+  store wider than one word sets (and checks) the dirty bits of all its words
+  """
+  def construct(s, p):
+    s.offset = InPort(p.bitwidth_offset)
+    s.len_   = InPort(p.bitwidth_len)
+    s.out    = OutPort(p.bitwidth_dirty)
+
+    data_words = 2**( p.bitwidth_data // 32 ) - 1
+
+    s.words = Wire(p.bitwidth_dirty)
+
+    @update
+    def words_logic():
+      if s.len_ == 0:
+        # full data width
+        s.words @= data_words
+      elif s.len_ == 3:
+        # moyang: this is a hack for CIFER project. When len == 3, we
+        # zero-extend the 32-bit word to a 64-bit double word
+        s.words @= 0b11
+      elif s.len_ == trunc(Bits32(8), p.bitwidth_len):
+        # truncated to 0 if 64 bit data or less
+        s.words @= 0b11
+      else:
+        s.words @= 0b1
+
+    @update
+    def shift_logic():
+      s.out @= s.words << zext(s.offset[2 : p.bitwidth_offset], p.bitwidth_dirty)
+
 class TagArrayRDataProcessUnit( Component ):
   """
   Processes all incoming data from the tag array(s).
@@ -250,19 +283,21 @@ class TagArrayRDataProcessUnit( Component ):
     s.line_dirty = OutPort(p.associativity) # If the line is dirty
     s.tag_entires= [ OutPort(p.StructTagArray) for _ in range(p.associativity) ]
 
+    # Words of the cache line accessed by the current request
+    s.words = Wire(p.bitwidth_dirty)
+    s.word_mask = m = WordMaskGen(p)
+    m.offset //= s.offset
+    m.len_   //= s.wr_len
+    m.out    //= s.words
+
     # word dirty logic
     @update
     def word_dirty_logic():
       for i in range(p.associativity):
-        # moyang: this is a CIFER hack. When writing a double word (zero
-        # extending a 32-bit word to a 64-bit double word), we only consider the
-        # double word dirty if both 32-bit words are dirty, because we need to
-        # stall the pipeline to set the two dirty bits if any of them is not
+        # Only dirty if all the accessed words are dirty, because we need to
+        # stall the pipeline to set the dirty bits if any of them is not
         # already dirty.
-        if s.wr_len == 3:
-          s.word_dirty[i] @= s.tag_array[i].dty[ s.offset[2 : p.bitwidth_offset] ] & s.tag_array[i].dty[ s.offset[2 : p.bitwidth_offset] + 1 ]
-        else:
-          s.word_dirty[i] @= s.tag_array[i].dty[ s.offset[2 : p.bitwidth_offset] ]
+        s.word_dirty[i] @= (s.tag_array[i].dty & s.words) == s.words
 
     @update
     def line_dirty_logic():
-- 
2.43.0


From 07208f455263801587cf022570c70d70dd204c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 2/5] fix: FL model AMO to a fresh line or a high address

ModelCache.amo looked the line up under a Bits key and a signed int key, so an
AMO to a line not touched before, or with address bit 31 set, raised KeyError.
---
 blocking_cache/BlockingCacheFL.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blocking_cache/BlockingCacheFL.py b/blocking_cache/BlockingCacheFL.py
index 1a3cfb5..488699a 100644
--- a/blocking_cache/BlockingCacheFL.py
+++ b/blocking_cache/BlockingCacheFL.py
@@ -283,17 +283,17 @@ class ModelCache:
   def amo(self, addr, value, opaque, len_, func):
     # AMO operations are on the word level only
     self.tracker.amo_req(addr)
-    new_addr = addr[self.offset_end:32]
+    new_addr = int(addr[self.offset_end:32])
     offset = int(addr[self.offset_start:self.offset_end])
     if new_addr not in self.mem:
       self.mem[new_addr] = Bits(self.mem_bitwidth_data, 0)
-    ret = self.mem[new_addr.int()][offset * 8 : (offset + 4) * 8]
+    ret = self.mem[new_addr][offset * 8 : (offset + 4) * 8]
     
     value = trunc(value, 32)
     amo_out = AMO_FUNS[ int(func) ]( ret, value )
     ret = zext( ret, self.cache_bitwidth_data )
     value = zext( value, self.cache_bitwidth_data )
-    self.mem[new_addr.int()][offset * 8 : (offset + 4) * 8] = amo_out
+    self.mem[new_addr][offset * 8 : (offset + 4) * 8] = amo_out
     
     self.transactions.append(req (self.CacheReqType, func, opaque, addr, len_, value))
     self.transactions.append(resp(self.CacheRespType,func, opaque, 0,    len_, ret))
-- 
2.43.0


From 5b1461bf1163d244eb934b0fa5dd480cd163d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 3/5] fix: FL model subword WRITE_INIT

ModelCache.init assigned the whole data word to a narrower slice, which raises
ValueError; take the low len bytes, as ModelCache.write does.
---
 blocking_cache/BlockingCacheFL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blocking_cache/BlockingCacheFL.py b/blocking_cache/BlockingCacheFL.py
index 488699a..a4182dd 100644
--- a/blocking_cache/BlockingCacheFL.py
+++ b/blocking_cache/BlockingCacheFL.py
@@ -275,7 +275,7 @@ class ModelCache:
     if len_ == 0:
       self.mem[new_addr][offset*8 : (offset+self.cache_bitwidth_data/8)*8] = value
     else:
-      self.mem[new_addr][offset*8 : (offset + int(len_))*8 ] = value
+      self.mem[new_addr][offset*8 : (offset + int(len_))*8 ] = value[0 : int(len_)*8 ]
     self.transactions.append(req(self.CacheReqType,'in', opaque, addr, len_, value))
     self.transactions.append(resp(self.CacheRespType,'in', opaque, 0, len_, 0))
     self.opaque += 1
-- 
2.43.0


From 8a5991fb166c6d840b3c2dbe81ccc6385b9c7ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 4/5] fix: translate.py writes to --output-dir

---
 blocking_cache/translate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blocking_cache/translate.py b/blocking_cache/translate.py
index 2ee79bb..d5f2c02 100755
--- a/blocking_cache/translate.py
+++ b/blocking_cache/translate.py
@@ -115,6 +115,12 @@ def main( opts ):
 
 if __name__ == "__main__":
   opts = parse_cmdline()
+
+  # The translation pass writes to the current directory
+  if opts.output_dir:
+    os.makedirs( opts.output_dir, exist_ok=True )
+    os.chdir( opts.output_dir )
+
   file_name = main( opts )
 
   if opts.replace_sram:
-- 
2.43.0


From ebedfad08ef4e1a8d3296a6f4e8f76e4fbc6eaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:55 +0000
Subject: [PATCH 5/5] fix: give caches that differ only in opaque width their
 own Verilog modules

---
 blocking_cache/CacheDerivedParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blocking_cache/CacheDerivedParams.py b/blocking_cache/CacheDerivedParams.py
index f37fa79..bf0a73e 100644
--- a/blocking_cache/CacheDerivedParams.py
+++ b/blocking_cache/CacheDerivedParams.py
@@ -19,7 +19,7 @@ class CacheDerivedParams:
 
   def __str__( self ):
     return f"BlockingCache_{self.num_bytes}_{self.bitwidth_cacheline}_{self.bitwidth_addr}_"\
-           f"{self.bitwidth_data}_{self.associativity}"
+           f"{self.bitwidth_data}_{self.bitwidth_opaque}_{self.associativity}"
 
   def __init__( self, CacheReqType, CacheRespType, MemReqType, MemRespType,
                 num_bytes, associativity ):
-- 
2.43.0

