From 5d7db3b5c289e9d70fef892259218f14b5fca201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:43 +0000
Subject: [PATCH 01/53] fix: BIFF2 WINDOW2 flags were always reported as set

Iterating over bytes yields ints on Python 3, which never equal b'\0'.
---
 xlrd/sheet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index a831398..9e44de5 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1487,8 +1487,8 @@ class Sheet(BaseObject):
                 elif rc == XL_WINDOW2_B2: # BIFF 2 only
                     attr_names = ("show_formulas", "show_grid_lines", "show_sheet_headers",
                         "panes_are_frozen", "show_zero_values")
-                    for attr, char in zip(attr_names, data[0:5]):
-                        setattr(self, attr, int(char != b'\0'))
+                    for attr, flag in zip(attr_names, unpack("<5B", data[0:5])):
+                        setattr(self, attr, int(flag != 0))
                     (
                         self.first_visible_rowx, self.first_visible_colx,
                         self.automatic_grid_line_colour,
-- 
2.43.0


From 217ff2b64db30c3b003a716bcca634c3da8ecd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 02/53] fix: shared strings with a surrogate pair split across
 CONTINUE records

Each piece was decoded on its own, so opening the file raised
UnicodeDecodeError.
---
 xlrd/book.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 6876a3e..2159efc 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1413,7 +1413,9 @@ def unpack_SST_table(datatab, nstrings):
         if options & 0x04: # phonetic
             phosz = local_unpack('<i', data[pos:pos+4])[0]
             pos += 4
-        accstrg = UNICODE_LITERAL('')
+        # The pieces are accumulated as UTF-16 and decoded when complete, because
+        # a surrogate pair may be split across CONTINUE records.
+        accraw = b''
         charsgot = 0
         while 1:
             charsneed = nchars - charsgot
@@ -1422,22 +1424,14 @@ def unpack_SST_table(datatab, nstrings):
                 charsavail = local_min((datalen - pos) >> 1, charsneed)
                 rawstrg = data[pos:pos+2*charsavail]
                 # if DEBUG: print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                try:
-                    accstrg += unicode(rawstrg, "utf_16_le")
-                except:
-                    # print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                    # Probable cause: dodgy data e.g. unfinished surrogate pair.
-                    # E.g. file unicode2.xls in pyExcelerator's examples has cells containing
-                    # unichr(i) for i in range(0x100000)
-                    # so this will include 0xD800 etc
-                    raise
+                accraw += rawstrg
                 pos += 2*charsavail
             else:
                 # Note: this is COMPRESSED (not ASCII!) encoding!!!
                 charsavail = local_min(datalen - pos, charsneed)
                 rawstrg = data[pos:pos+charsavail]
                 # if DEBUG: print "SST CMPRSD: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                accstrg += unicode(rawstrg, latin_1)
+                accraw += unicode(rawstrg, latin_1).encode("utf_16_le")
                 pos += charsavail
             charsgot += charsavail
             if charsgot == nchars:
@@ -1447,6 +1441,11 @@ def unpack_SST_table(datatab, nstrings):
             datalen = len(data)
             options = local_BYTES_ORD(data[0])
             pos = 1
+        # This will raise if the data is dodgy e.g. unfinished surrogate pair.
+        # E.g. file unicode2.xls in pyExcelerator's examples has cells containing
+        # unichr(i) for i in range(0x100000)
+        # so this will include 0xD800 etc
+        accstrg = unicode(accraw, "utf_16_le")
 
         if rtcount:
             runs = []
-- 
2.43.0


From bf84923f896678a941ad2c3ad62a7982cbfd5561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 03/53] fix: shared strings whose phonetic data spans several
 CONTINUE records

Only the first record boundary was skipped, so the following strings
were read from the wrong position.
---
 xlrd/book.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 2159efc..cd4e7e5 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1401,6 +1401,13 @@ def unpack_SST_table(datatab, nstrings):
     local_BYTES_ORD = BYTES_ORD
     latin_1 = "latin_1"
     for _unused_i in xrange(nstrings):
+        while pos >= datalen:
+            # adjust to correct position in next record
+            pos = pos - datalen
+            datainx += 1
+            assert datainx < ndatas
+            data = datatab[datainx]
+            datalen = len(data)
         nchars = local_unpack('<H', data[pos:pos+2])[0]
         pos += 2
         options = local_BYTES_ORD(data[pos])
@@ -1460,14 +1467,5 @@ def unpack_SST_table(datatab, nstrings):
             richtext_runs[len(strings)] = runs
 
         pos += phosz # size of the phonetic stuff to skip
-        if pos >= datalen:
-            # adjust to correct position in next record
-            pos = pos - datalen
-            datainx += 1
-            if datainx < ndatas:
-                data = datatab[datainx]
-                datalen = len(data)
-            else:
-                assert _unused_i == nstrings - 1
         strappend(accstrg)
     return strings, richtext_runs
-- 
2.43.0


From adb7b5f3e411108f930ca0ea1205ea4e6405eaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 04/53] fix: text results of formulas: count stored units,
 decode when complete

The length of a STRING record counts UTF-16 units (or bytes before
BIFF8), but decoded code points were counted, so results with
characters outside the BMP, or in a multi-byte code page, raised
XLRDError; a surrogate pair split across CONTINUE records raised
UnicodeDecodeError, and a zero-length text without option byte raised
IndexError.
---
 xlrd/sheet.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 9e44de5..be82951 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1516,17 +1516,25 @@ class Sheet(BaseObject):
         if bv < 80:
             enc = bk.encoding or bk.derive_encoding()
         nchars_found = 0
-        result = UNICODE_LITERAL("")
+        raw = b''
         while 1:
             if bv >= 80:
-                flag = BYTES_ORD(data[offset]) & 1
-                enc = ("latin_1", "utf_16_le")[flag]
-                offset += 1
-            chunk = unicode(data[offset:], enc)
-            result += chunk
-            nchars_found += len(chunk)
+                # Lengths count 16-bit units. The pieces are accumulated as UTF-16
+                # and decoded when complete, because a surrogate pair may be split
+                # across CONTINUE records.
+                flag = BYTES_ORD(data[offset]) & 1 if data[offset:] else 0
+                chunk = data[offset+1:]
+                if not flag:
+                    chunk = unicode(chunk, "latin_1").encode("utf_16_le")
+                enc = "utf_16_le"
+                nchars_found += len(chunk) // 2
+            else:
+                # Lengths count bytes.
+                chunk = data[offset:]
+                nchars_found += len(chunk)
+            raw += chunk
             if nchars_found == nchars_expected:
-                return result
+                return unicode(raw, enc)
             if nchars_found > nchars_expected:
                 msg = ("STRING/CONTINUE: expected %d chars, found %d"
                     % (nchars_expected, nchars_found))
-- 
2.43.0


From b19134d1297c7944d9f039b924f71bd324131c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:56 +0000
Subject: [PATCH 05/53] fix: short ARRAY records of BIFF3/BIFF4 raised
 struct.error

Their header is shorter than in BIFF5+, so an array formula of a few
bytes made the sheet unreadable although the fields are only needed
for debugging output.
---
 xlrd/sheet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index be82951..fb56ed9 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -954,9 +954,9 @@ class Sheet(BaseObject):
                             if rc2 == XL_STRING or rc2 == XL_STRING_B2:
                                 gotstring = 1
                             elif rc2 == XL_ARRAY:
-                                row1x, rownx, col1x, colnx, array_flags, tokslen = \
-                                    local_unpack("<HHBBBxxxxxH", data2[:14])
                                 if blah_formulas:
+                                    row1x, rownx, col1x, colnx, array_flags, tokslen = \
+                                        local_unpack("<HHBBBxxxxxH", data2[:14])
                                     fprintf(self.logfile, "ARRAY: %d %d %d %d %d\n",
                                         row1x, rownx, col1x, colnx, array_flags)
                                     # dump_formula(bk, data2[14:], tokslen, bv, reldelta=0, blah=1)
@@ -1149,9 +1149,9 @@ class Sheet(BaseObject):
                 )
                 assert pos == data_len
             elif rc == XL_ARRAY:
-                row1x, rownx, col1x, colnx, array_flags, tokslen = \
-                    local_unpack("<HHBBBxxxxxH", data[:14])
                 if blah_formulas:
+                    row1x, rownx, col1x, colnx, array_flags, tokslen = \
+                        local_unpack("<HHBBBxxxxxH", data[:14])
                     print("ARRAY:", row1x, rownx, col1x, colnx, array_flags, file=self.logfile)
                     # dump_formula(bk, data[14:], tokslen, bv, reldelta=0, blah=1)
             elif rc == XL_SHRFMLA:
-- 
2.43.0


From 0e3d9d7223224f722a1e6e6bdf0b7369658b6391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:38 +0000
Subject: [PATCH 06/53] fix: web links containing characters outside the BMP

The stored length counts UTF-16 units but code points were counted, so
the sheet could not be read (AssertionError).
---
 xlrd/sheet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index fb56ed9..eb332c0 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1791,7 +1791,7 @@ class Sheet(BaseObject):
                 endpos = h.url_or_path.find('\x00')
                 if DEBUG: print("endpos=%d" % endpos, file=self.logfile)
                 h.url_or_path = h.url_or_path[:endpos]
-                true_nbytes = 2 * (endpos + 1)
+                true_nbytes = len(h.url_or_path.encode('UTF-16le')) + 2
                 offset += true_nbytes
                 extra_nbytes = nbytes - true_nbytes
                 extra_data = data[offset:offset + extra_nbytes]
-- 
2.43.0


From d522d850d2ef761d1bb07add17448ce1e76c214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:38 +0000
Subject: [PATCH 07/53] fix: note texts with a surrogate pair split across
 CONTINUE records

Each piece was decoded on its own, so the sheet could not be read
(UnicodeDecodeError).
---
 xlrd/sheet.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index eb332c0..38467f6 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -2035,7 +2035,9 @@ class Sheet(BaseObject):
             (15, 0x8000, 'secret_edit'),
         ))
         totchars = 0
-        o.text = UNICODE_LITERAL('')
+        # The pieces are accumulated as UTF-16 and decoded when complete, because
+        # a surrogate pair may be split across CONTINUE records.
+        raw = b''
         while totchars < cchText:
             rc2, data2_len, data2 = self.book.get_record_parts()
             assert rc2 == XL_CONTINUE
@@ -2046,10 +2048,11 @@ class Sheet(BaseObject):
             if nb:
                 assert nchars % 2 == 0
                 nchars //= 2
-            utext, endpos = unpack_unicode_update_pos(data2, 0, known_len=nchars)
-            assert endpos == data2_len
-            o.text += utext
+                raw += data2[1:]
+            else:
+                raw += unicode(data2[1:], 'latin_1').encode('utf_16_le')
             totchars += nchars
+        o.text = unicode(raw, 'utf_16_le')
         o.rich_text_runlist = []
         totruns = 0
         while totruns < cbRuns: # counts of BYTES, not runs
-- 
2.43.0


From bd12659da4498e27e083f5bcf652d447ee839d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:38 +0000
Subject: [PATCH 08/53] fix: a text object before the first drawing object
 raised NameError

---
 xlrd/sheet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 38467f6..d43e2a3 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -807,6 +807,7 @@ class Sheet(BaseObject):
         do_sst_rich_text = fmt_info and bk._rich_text_runlist_map
         rowinfo_sharing_dict = {}
         txos = {}
+        saved_obj_id = None
         eof_found = 0
         while 1:
             # if DEBUG: print "SHEET.READ: about to read from position %d" % bk._position
-- 
2.43.0


From 5aaabd12d33f0dd461c03311961c038d2452e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 09/53] fix: OLE2 files with 4096-byte sectors could not be
 read

Sectors were located as if the header always took 512 bytes; with
larger sectors it is padded to a whole sector.
---
 xlrd/compdoc.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 412a89e..f92966e 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -111,13 +111,16 @@ class CompDoc(object):
             SSAT_first_sec_sid, SSAT_tot_secs,
             MSATX_first_sec_sid, MSATX_tot_secs,
         ) = unpack('<iiiiiiii', mem[44:76])
-        mem_data_len = len(mem) - 512
+        # Sector 0 starts where the header's sector ends; the header itself
+        # occupies 512 bytes, padded to a whole sector if sectors are larger.
+        self.base = base = max(512, sec_size)
+        mem_data_len = len(mem) - base
         mem_data_secs, left_over = divmod(mem_data_len, sec_size)
         if left_over:
             #### raise CompDocError("Not a whole number of sectors")
             mem_data_secs += 1
-            print("WARNING *** file size (%d) not 512 + multiple of sector size (%d)"
-                % (len(mem), sec_size), file=logfile)
+            print("WARNING *** file size (%d) not %d + multiple of sector size (%d)"
+                % (len(mem), base, sec_size), file=logfile)
         self.mem_data_secs = mem_data_secs # use for checking later
         self.mem_data_len = mem_data_len
         seen = self.seen = array.array('B', [0]) * mem_data_secs
@@ -165,7 +168,7 @@ class CompDoc(object):
                 actual_MSATX_sectors += 1
                 if DEBUG and actual_MSATX_sectors > expected_MSATX_sectors:
                     print("[1]===>>>", mem_data_secs, nent, SAT_sectors_reqd, expected_MSATX_sectors, actual_MSATX_sectors, file=logfile)
-                offset = 512 + sec_size * sid
+                offset = base + sec_size * sid
                 MSAT.extend(unpack(fmt, mem[offset:offset+sec_size]))
                 sid = MSAT.pop() # last sector id is sid of next sector in the chain
 
@@ -203,7 +206,7 @@ class CompDoc(object):
             actual_SAT_sectors += 1
             if DEBUG and actual_SAT_sectors > SAT_sectors_reqd:
                 print("[3]===>>>", mem_data_secs, nent, SAT_sectors_reqd, expected_MSATX_sectors, actual_MSATX_sectors, actual_SAT_sectors, msid, file=logfile)
-            offset = 512 + sec_size * msid
+            offset = base + sec_size * msid
             self.SAT.extend(unpack(fmt, mem[offset:offset+sec_size]))
 
         if DEBUG:
@@ -225,7 +228,7 @@ class CompDoc(object):
         # === build the directory ===
         #
         dbytes = self._get_stream(
-            self.mem, 512, self.SAT, self.sec_size, self.dir_first_sec_sid,
+            self.mem, self.base, self.SAT, self.sec_size, self.dir_first_sec_sid,
             name="directory", seen_id=3)
         dirlist = []
         did = -1
@@ -252,7 +255,7 @@ class CompDoc(object):
             self.SSCS = ""
         else:
             self.SSCS = self._get_stream(
-                self.mem, 512, self.SAT, sec_size, sscs_dir.first_SID,
+                self.mem, self.base, self.SAT, sec_size, sscs_dir.first_SID,
                 sscs_dir.tot_size, name="SSCS", seen_id=4)
         # if DEBUG: print >> logfile, "SSCS", repr(self.SSCS)
         #
@@ -269,7 +272,7 @@ class CompDoc(object):
                     raise CompDocError("SSAT corruption: seen[%d] == %d" % (sid, seen[sid]))
                 seen[sid] = 5
                 nsecs -= 1
-                start_pos = 512 + sid * sec_size
+                start_pos = base + sid * sec_size
                 news = list(unpack(fmt, mem[start_pos:start_pos+sec_size]))
                 self.SSAT.extend(news)
                 sid = self.SAT[sid]
@@ -364,7 +367,7 @@ class CompDoc(object):
             return None
         if d.tot_size >= self.min_size_std_stream:
             return self._get_stream(
-                self.mem, 512, self.SAT, self.sec_size, d.first_SID,
+                self.mem, self.base, self.SAT, self.sec_size, d.first_SID,
                 d.tot_size, name=qname, seen_id=d.DID+6)
         else:
             return self._get_stream(
@@ -396,7 +399,7 @@ class CompDoc(object):
                 % (qname, d.tot_size, self.mem_data_len))
         if d.tot_size >= self.min_size_std_stream:
             result = self._locate_stream(
-                self.mem, 512, self.SAT, self.sec_size, d.first_SID,
+                self.mem, self.base, self.SAT, self.sec_size, d.first_SID,
                 d.tot_size, qname, d.DID+6)
             if self.DEBUG:
                 print("\nseen", file=self.logfile)
-- 
2.43.0


From 7c453146aa025ef50b6ab365d4c5c7f00b51dd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 10/53] fix: OLE2 directories with 250 or more entries before
 the workbook stream

The entry's number did not fit the byte array that marks sectors in
use (OverflowError).
---
 xlrd/compdoc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index f92966e..6af031a 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -123,7 +123,7 @@ class CompDoc(object):
                 % (len(mem), base, sec_size), file=logfile)
         self.mem_data_secs = mem_data_secs # use for checking later
         self.mem_data_len = mem_data_len
-        seen = self.seen = array.array('B', [0]) * mem_data_secs
+        seen = self.seen = array.array('i', [0]) * mem_data_secs
 
         if DEBUG:
             print('sec sizes', ssz, sssz, sec_size, self.short_sec_size, file=logfile)
-- 
2.43.0


From 4dcb1fe32c215b2530b96cd08a7e79334d4f411b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 11/53] fix: damaged chains of short OLE2 streams: hang, or
 incomplete data

A cyclic chain of short sectors was followed for ever, and a chain that
ends too early or leaves the short-stream container gave incomplete
data; both are errors for ordinary streams already.
---
 xlrd/compdoc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 6af031a..97e0a76 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -309,6 +309,9 @@ class CompDoc(object):
         else:
             todo = size
             while s >= 0:
+                if seen_id is None and todo <= 0:
+                    raise CompDocError(
+                        "OLE2 stream %r: size exceeds expected %d bytes; corrupt?" % (name, size))
                 if seen_id is not None:
                     if self.seen[s]:
                         raise CompDocError("%s corruption: seen[%d] == %d" % (name, s, self.seen[s]))
@@ -332,7 +335,10 @@ class CompDoc(object):
                     "WARNING *** OLE2 stream %r: expected size %d, actual size %d\n",
                     name, size, size - todo)
 
-        return b''.join(sectors)
+        result = b''.join(sectors)
+        if seen_id is None and len(result) != size:
+            raise CompDocError("OLE2 stream %r: expected size %d, actual size %d" % (name, size, len(result)))
+        return result
 
     def _dir_search(self, path, storage_DID=0):
         # Return matching DirNode instance, or None
-- 
2.43.0


From c8c8b3ea64bde4e9c6a86814404a6f908233f3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 12/53] fix: an unavailable SAT sector shifted the entries of
 those after it

Chains were then followed through the wrong entries and could yield the
bytes of other sectors without any error.
---
 xlrd/compdoc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 97e0a76..472db22 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -197,6 +197,8 @@ class CompDoc(object):
                     trunc_warned = 1
                 MSAT[msidx] = EVILSID
                 dump_again = 1
+                # keep the entries of any following SAT sectors in position
+                self.SAT.extend([EVILSID] * nent)
                 continue
             elif msid < -2:
                 raise CompDocError("MSAT: invalid sector id: %d" % msid)
-- 
2.43.0


From 6bebbf3810b1be93b2cf5039dd5fd7ff3916758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:48 +0000
Subject: [PATCH 13/53] fix: a damaged OLE2 directory could take exponential
 time to read

Entries linked as the left and right sibling of the same entry were
visited once per path leading to them.
---
 xlrd/compdoc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 472db22..7ca5223 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -63,9 +63,11 @@ class DirNode(object):
 
 def _build_family_tree(dirlist, parent_DID, child_DID):
     if child_DID < 0: return
+    if dirlist[child_DID].parent != -1:
+        raise CompDocError("OLE2 directory: entry %d is reached more than once" % child_DID)
+    dirlist[child_DID].parent = parent_DID
     _build_family_tree(dirlist, parent_DID, dirlist[child_DID].left_DID)
     dirlist[parent_DID].children.append(child_DID)
-    dirlist[child_DID].parent = parent_DID
     _build_family_tree(dirlist, parent_DID, dirlist[child_DID].right_DID)
     if dirlist[child_DID].etype == 1: # storage
         _build_family_tree(dirlist, child_DID, dirlist[child_DID].root_DID)
-- 
2.43.0


From 2f3d019cddd56dd178a8fb62295a67dbcc8b4f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 14/53] fix: a truncated sector inside a fragmented OLE2 stream
 shifted its data

The missing bytes were left out silently, so that everything after them
was read from the wrong position.
---
 xlrd/compdoc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 7ca5223..27c1a72 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -466,6 +466,9 @@ class CompDoc(object):
         if not slices:
             # The stream is contiguous ... just what we like!
             return (mem, start_pos, expected_stream_size)
+        if max(end_pos for _unused, end_pos in slices) > len(mem):
+            # only the last sector of the stream may be cut short
+            raise CompDocError("%s: sector(s) beyond the end of the file" % qname)
         slices.append((start_pos, end_pos))
         # print >> self.logfile, "+++>>> %d fragments" % len(slices)
         return (b''.join(mem[start_pos:end_pos] for start_pos, end_pos in slices), 0, expected_stream_size)
-- 
2.43.0


From 998e2d318dc5022739dc9f230b45ddac934530ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 15/53] fix: OLE2 directories with long sibling chains raised
 RecursionError

---
 xlrd/compdoc.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/xlrd/compdoc.py b/xlrd/compdoc.py
index 27c1a72..bca1590 100644
--- a/xlrd/compdoc.py
+++ b/xlrd/compdoc.py
@@ -62,15 +62,25 @@ class DirNode(object):
             print("timestamp info", self.tsinfo, file=self.logfile)
 
 def _build_family_tree(dirlist, parent_DID, child_DID):
-    if child_DID < 0: return
-    if dirlist[child_DID].parent != -1:
-        raise CompDocError("OLE2 directory: entry %d is reached more than once" % child_DID)
-    dirlist[child_DID].parent = parent_DID
-    _build_family_tree(dirlist, parent_DID, dirlist[child_DID].left_DID)
-    dirlist[parent_DID].children.append(child_DID)
-    _build_family_tree(dirlist, parent_DID, dirlist[child_DID].right_DID)
-    if dirlist[child_DID].etype == 1: # storage
-        _build_family_tree(dirlist, child_DID, dirlist[child_DID].root_DID)
+    # Explicit stack: neither the number of siblings nor the depth of the tree
+    # is limited. "listed" is true when the left siblings have been dealt with.
+    stack = [(parent_DID, child_DID, False)]
+    while stack:
+        parent_DID, child_DID, listed = stack.pop()
+        if child_DID < 0:
+            continue
+        child = dirlist[child_DID]
+        if listed:
+            dirlist[parent_DID].children.append(child_DID)
+            continue
+        if child.parent != -1:
+            raise CompDocError("OLE2 directory: entry %d is reached more than once" % child_DID)
+        child.parent = parent_DID
+        if child.etype == 1: # storage
+            stack.append((child_DID, child.root_DID, False))
+        stack.append((parent_DID, child.right_DID, False))
+        stack.append((parent_DID, child_DID, True))
+        stack.append((parent_DID, child.left_DID, False))
 
 
 class CompDoc(object):
-- 
2.43.0


From 65198b7e757e9665ac8c8aae9f49a6849eae9c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:59 +0000
Subject: [PATCH 16/53] fix: numbers in workbooks without FORMAT records were
 typed as text

---
 xlrd/formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formatting.py b/xlrd/formatting.py
index ca637b8..74fad72 100644
--- a/xlrd/formatting.py
+++ b/xlrd/formatting.py
@@ -1036,7 +1036,7 @@ def xf_epilogue(self):
             fmt = self.format_map[xf.format_key]
             cellty = _cellty_from_fmtty[fmt.type]
         except KeyError:
-            cellty = XL_CELL_TEXT
+            cellty = XL_CELL_NUMBER
         self._xf_index_to_xl_type_map[xf.xf_index] = cellty
         # Now for some assertions etc
         if not self.formatting_info:
-- 
2.43.0


From e65fa0f1d3bc029e6a9207c81df9bd38667b8fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:00 +0000
Subject: [PATCH 17/53] fix: cell styles made for Excel 2.0 files had no valid
 parent style

The style/cell test was inverted: cell XFs got the parent index 0xFFF and
style XFs 0, and none was marked as a style.
---
 xlrd/sheet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index d43e2a3..9b75262 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1692,7 +1692,8 @@ class Sheet(BaseObject):
             bg.fill_pattern = 0
         bg.background_colour_index = 9 # white
         bg.pattern_colour_index = 8 # black
-        xf.parent_style_index = (0x0FFF, 0)[style]
+        xf.is_style = int(style)
+        xf.parent_style_index = (0, 0x0FFF)[style]
         xf.alignment.vert_align = 2 # bottom
         xf.alignment.rotation = 0
         attr_stems = [
-- 
2.43.0


From 3c5c6192a3665ccb6ad01d0828f21230579bae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:00 +0000
Subject: [PATCH 18/53] fix: a named style before any other byte text raised
 TypeError

Like FONT and FORMAT, a STYLE record may be the first to need the
encoding of the workbook.
---
 xlrd/formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formatting.py b/xlrd/formatting.py
index 74fad72..78d9e90 100644
--- a/xlrd/formatting.py
+++ b/xlrd/formatting.py
@@ -665,7 +665,7 @@ def handle_style(book, data):
                 print("raw bytes:", repr(data[2:]), file=book.logfile)
                 raise
         else:
-            name = unpack_string(data, 2, book.encoding, lenlen=1)
+            name = unpack_string(data, 2, book.encoding or book.derive_encoding(), lenlen=1)
         if blah and not name:
             print("WARNING *** A user-defined style has a zero-length name", file=book.logfile)
     book.style_name_map[name] = (built_in, xf_index)
-- 
2.43.0


From ba385a1a28a0d97dbe65fee295bf708992e4f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:47 +0000
Subject: [PATCH 19/53] fix: user name left undecoded in old files without a
 CODEPAGE record

In BIFF2-4 files the user name stayed raw bytes, length byte included,
unless some other text happened to need the encoding.
---
 xlrd/book.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xlrd/book.py b/xlrd/book.py
index cd4e7e5..9bd23a2 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -729,6 +729,8 @@ class Book(BaseObject):
         self._sheet_visibility = [0] # one sheet, visible
         self._sheet_list.append(None) # get_sheet updates _sheet_list but needs a None beforehand
         self.get_sheets()
+        if self.raw_user_name:
+            self.derive_encoding() # no CODEPAGE record; decode the user name
 
     def handle_boundsheet(self, data):
         # DEBUG = 1
-- 
2.43.0


From 46826b0219f78f2ec287e5faca31569beca36ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:01 +0000
Subject: [PATCH 20/53] fix: formula.colname failed for columns past ZZ

---
 xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 00e4464..01126bd 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -2104,7 +2104,7 @@ def colname(colx):
         return alphabet[colx]
     else:
         xdiv26, xmod26 = divmod(colx, 26)
-        return alphabet[xdiv26 - 1] + alphabet[xmod26]
+        return colname(xdiv26 - 1) + alphabet[xmod26]
 
 def rangename2d(rlo, rhi, clo, chi, r1c1=0):
     """ ``(5, 20, 7, 10)`` => ``'$H$6:$J$20'`` """
-- 
2.43.0


From 3fb883eb554009bf542739774d8bcba3fce50a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:01 +0000
Subject: [PATCH 21/53] fix: rangename2d returned None for R1C1 notation

---
 xlrd/formula.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 01126bd..4a5ba4c 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -2108,8 +2108,6 @@ def colname(colx):
 
 def rangename2d(rlo, rhi, clo, chi, r1c1=0):
     """ ``(5, 20, 7, 10)`` => ``'$H$6:$J$20'`` """
-    if r1c1:
-        return
     if rhi == rlo+1 and chi == clo+1:
         return cellnameabs(rlo, clo, r1c1)
     return "%s:%s" % (cellnameabs(rlo, clo, r1c1), cellnameabs(rhi-1, chi-1, r1c1))
-- 
2.43.0


From 02eaa05fa81c824d2f7524096caa86f2d56ddabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:13 +0000
Subject: [PATCH 22/53] fix: sheet names with operators or a leading digit were
 not quoted in references

---
 xlrd/formula.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 4a5ba4c..a0fb835 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -12,6 +12,7 @@ from __future__ import print_function
 
 import copy
 import operator as opr
+import re
 from struct import unpack
 
 from .biffh import (
@@ -2154,6 +2155,10 @@ def rangename3drel(book, ref3d, browx=None, bcolx=None, r1c1=0):
         return rngdesc
     return "%s!%s" % (shdesc, rngdesc)
 
+# A name needs no quotes if it has only letters, digits, "_" and "."
+# and does not start with a digit or a ".".
+_plain_sheet_name = re.compile(r"[^\W\d][\w.]*\Z", re.UNICODE).match
+
 def quotedsheetname(shnames, shx):
     if shx >= 0:
         shname = shnames[shx]
@@ -2166,7 +2171,7 @@ def quotedsheetname(shnames, shx):
         }.get(shx, "?error %d?" % shx)
     if "'" in shname:
         return "'" + shname.replace("'", "''") + "'"
-    if " " in shname:
+    if " " in shname or (shx >= 0 and not _plain_sheet_name(shname)):
         return "'" + shname + "'"
     return shname
 
-- 
2.43.0


From 7f89e8a97adf030ecce0481eac09c1f15aa37d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:34 +0000
Subject: [PATCH 23/53] fix: relative names mixed A1 and R1C1 when only one
 base coordinate was given

---
 xlrd/formula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index a0fb835..34256e8 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -2050,7 +2050,7 @@ def dump_formula(bk, data, fmlalen, bv, reldelta, blah=0, isname=0):
 
 def rownamerel(rowx, rowxrel, browx=None, r1c1=0):
     # if no base rowx is provided, we have to return r1c1
-    if browx is None:
+    if rowxrel and browx is None:
         r1c1 = True
     if not rowxrel:
         if r1c1:
@@ -2064,7 +2064,7 @@ def rownamerel(rowx, rowxrel, browx=None, r1c1=0):
 
 def colnamerel(colx, colxrel, bcolx=None, r1c1=0):
     # if no base colx is provided, we have to return r1c1
-    if bcolx is None:
+    if colxrel and bcolx is None:
         r1c1 = True
     if not colxrel:
         if r1c1:
-- 
2.43.0


From bcb17179d3ce8177ab1b98af8089825f33ac8fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:48 +0000
Subject: [PATCH 24/53] fix: negative indexes ignored row and column formats of
 empty cells

---
 xlrd/sheet.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 9b75262..28c526b 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -439,6 +439,11 @@ class Sheet(BaseObject):
         if xfx > -1:
             self._xf_index_stats[0] += 1
             return xfx
+        # Rows and columns are known by their non-negative indexes
+        if colx < 0:
+            colx += len(self._cell_xf_indexes[rowx])
+        if rowx < 0:
+            rowx += len(self._cell_xf_indexes)
         # Check for a row xf_index
         try:
             xfx = self.rowinfo_map[rowx].xf_index
-- 
2.43.0


From 004f4f2a4f8ae80ccb4d9c70da5e1ef371b6e103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:35 +0000
Subject: [PATCH 25/53] fix: skip the whole of an embedded substream that
 contains embedded substreams

---
 xlrd/sheet.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 28c526b..befc91c 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1138,10 +1138,13 @@ class Sheet(BaseObject):
                 if boftype != 0x20: # embedded chart
                     print("*** Unexpected embedded BOF (0x%04x) at offset %d: version=0x%04x type=0x%04x"
                         % (rc, bk._position - data_len - 4, version, boftype), file=self.logfile)
-                while 1:
+                depth = 1 # a chart may itself contain charts
+                while depth:
                     code, data_len, data = bk.get_record_parts()
                     if code == XL_EOF:
-                        break
+                        depth -= 1
+                    elif code in bofcodes:
+                        depth += 1
                 if DEBUG: print("---> found EOF", file=self.logfile)
             elif rc == XL_COUNTRY:
                 bk.handle_country(data)
-- 
2.43.0


From a1e8f747c63bc8eee305b47ea9a794abfc5087ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:50 +0000
Subject: [PATCH 26/53] fix: find the sheet of a version 2-4 stream stored in a
 container

---
 xlrd/book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 9bd23a2..43480d7 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -725,7 +725,7 @@ class Book(BaseObject):
         formatting.initialise_book(self)
         fake_sheet_name = UNICODE_LITERAL('Sheet 1')
         self._sheet_names = [fake_sheet_name]
-        self._sh_abs_posn = [0]
+        self._sh_abs_posn = [self.base]
         self._sheet_visibility = [0] # one sheet, visible
         self._sheet_list.append(None) # get_sheet updates _sheet_list but needs a None beforehand
         self.get_sheets()
-- 
2.43.0


From 25f0ffcd1347e4734882b8428b3e61b09b9cf0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:19 +0000
Subject: [PATCH 27/53] fix: report an encrypted workbook as such at any
 verbosity

---
 xlrd/book.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 43480d7..f6d0a45 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -926,10 +926,10 @@ class Book(BaseObject):
             logf = self.logfile
             fprintf(logf, "FILEPASS:\n")
             hex_char_dump(data, 0, len(data), base=0, fout=logf)
-            if self.biff_version >= 80:
+            if self.biff_version >= 80 and len(data) >= 6:
                 kind1, = unpack('<H', data[:2])
                 if kind1 == 0: # weak XOR encryption
-                    key, hash_value = unpack('<HH', data[2:])
+                    key, hash_value = unpack('<HH', data[2:6])
                     fprintf(logf,
                         'weak XOR: key=0x%04x hash=0x%04x\n',
                         key, hash_value)
-- 
2.43.0


From 840e25da1d773bbea2ec15bd5deb68e80da9adc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:49 +0000
Subject: [PATCH 28/53] fix: don't read records beyond the end of the workbook
 stream

---
 xlrd/book.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index f6d0a45..64bab7c 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -676,7 +676,8 @@ class Book(BaseObject):
     def get_record_parts(self):
         pos = self._position
         mem = self.mem
-        code, length = unpack('<HH', mem[pos:pos+4])
+        # what follows the end of the stream (in its container) isn't part of it
+        code, length = unpack('<HH', mem[pos:min(pos+4, self.base+self.stream_len)])
         pos += 4
         data = mem[pos:pos+length]
         self._position = pos + length
-- 
2.43.0


From a08e6964321472f880af04a087ab20d5ff3967be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:18 +0000
Subject: [PATCH 29/53] fix: dump and count nothing beyond the end of the
 workbook stream

---
 xlrd/biffh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xlrd/biffh.py b/xlrd/biffh.py
index 07ac629..21baa25 100644
--- a/xlrd/biffh.py
+++ b/xlrd/biffh.py
@@ -559,7 +559,7 @@ def biff_dump(mem, stream_offset, stream_len, base=0, fout=sys.stdout, unnumbere
     while stream_end - pos >= 4:
         rc, length = unpack('<HH', mem[pos:pos+4])
         if rc == 0 and length == 0:
-            if mem[pos:] == b'\0' * (stream_end - pos):
+            if mem[pos:stream_end] == b'\0' * (stream_end - pos):
                 dummies = stream_end - pos
                 savpos = pos
                 pos = stream_end
@@ -581,7 +581,7 @@ def biff_dump(mem, stream_offset, stream_len, base=0, fout=sys.stdout, unnumbere
                 num_prefix = "%5d: " % (adj + pos)
             fprintf(fout, "%s%04x %s len = %04x (%d)\n", num_prefix, rc, recname, length, length)
             pos += 4
-            hex_char_dump(mem, pos, length, adj+pos, fout, unnumbered)
+            hex_char_dump(mem, pos, min(length, stream_end - pos), adj+pos, fout, unnumbered)
             pos += length
     if dummies:
         if numbered:
@@ -602,7 +602,7 @@ def biff_count_records(mem, stream_offset, stream_len, fout=sys.stdout):
     while stream_end - pos >= 4:
         rc, length = unpack('<HH', mem[pos:pos+4])
         if rc == 0 and length == 0:
-            if mem[pos:] == b'\0' * (stream_end - pos):
+            if mem[pos:stream_end] == b'\0' * (stream_end - pos):
                 break
             recname = "<Dummy (zero)>"
         else:
-- 
2.43.0


From e104442229025d1b05b3de260b8a3bc53cc2b1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:40 +0000
Subject: [PATCH 30/53] fix: open_workbook failed for paths starting with ~

---
 xlrd/book.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 64bab7c..6f6dd6c 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -4,6 +4,7 @@
 
 from __future__ import print_function
 
+import os
 import struct
 
 from . import compdoc, formatting, sheet
@@ -613,7 +614,7 @@ class Book(BaseObject):
         self.ragged_rows = ragged_rows
 
         if not file_contents:
-            with open(filename, "rb") as f:
+            with open(os.path.expanduser(filename), "rb") as f:
                 f.seek(0, 2) # EOF
                 size = f.tell()
                 f.seek(0, 0) # BOF
-- 
2.43.0


From e6d6c9f99e94d802a5fdbef734c8a0c38ead5d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:07 +0000
Subject: [PATCH 31/53] fix: opening empty file contents raised TypeError

---
 xlrd/__init__.py | 2 +-
 xlrd/book.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/__init__.py b/xlrd/__init__.py
index 84d5f26..cc88657 100644
--- a/xlrd/__init__.py
+++ b/xlrd/__init__.py
@@ -53,7 +53,7 @@ def inspect_format(path=None, content=None):
        The return value can always be looked up in :data:`FILE_FORMAT_DESCRIPTIONS`
        to return a human-readable description of the format found.
     """
-    if content:
+    if content or path is None:
         peek = content[:PEEK_SIZE]
     else:
         path = os.path.expanduser(path)
diff --git a/xlrd/book.py b/xlrd/book.py
index 6f6dd6c..1ca3c23 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -613,7 +613,7 @@ class Book(BaseObject):
         self.on_demand = on_demand
         self.ragged_rows = ragged_rows
 
-        if not file_contents:
+        if not file_contents and filename is not None:
             with open(os.path.expanduser(filename), "rb") as f:
                 f.seek(0, 2) # EOF
                 size = f.tell()
-- 
2.43.0


From 2a0fb9ece79d93ee5c90f1e91411543c7173f5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:40 +0000
Subject: [PATCH 32/53] fix: a defined name whose formula cannot be evaluated
 no longer makes the open fail

---
 xlrd/book.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 1ca3c23..99f4026 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -1046,7 +1046,20 @@ class Book(BaseObject):
             # Parse the formula ...
             if nobj.macro or nobj.binary: continue
             if nobj.evaluated: continue
-            evaluate_name_formula(self, nobj, namex, blah=blah)
+            try:
+                evaluate_name_formula(self, nobj, namex, blah=blah)
+            except Exception as e:
+                # e.g. a token that is not supported, or names that refer
+                # to each other: this name has no result
+                if self.verbosity:
+                    fprintf(f, "*** Name %r not evaluated: %s: %s\n",
+                        nobj.name, e.__class__.__name__, e)
+                nobj.stack = []
+                nobj.result = None
+                nobj.any_rel = 0
+                nobj.any_err = 1
+                nobj.any_external = 0
+                nobj.evaluated = 1
 
         if self.verbosity >= 2:
             print("---------- name object dump ----------", file=f)
-- 
2.43.0


From 3357bb53da81b0271af3101e5caacd3da28c3a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:40 +0000
Subject: [PATCH 33/53] fix: unary operators in name formulas accept
 references, texts and errors

---
 xlrd/formula.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 34256e8..78a4aa4 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -817,8 +817,16 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             ')'[:aop.rank < rank],
             sym2,
         ])
-        if val is not None:
-            val = func(val)
+        if aop.kind == oERR or (opcode == 0x12 and aop.kind in (oBOOL, oSTRG)):
+            # errors propagate; unary plus leaves a constant as it is
+            result_kind = aop.kind
+        elif aop.kind in (oBOOL, oNUM, oSTRG) and val is not None:
+            try:
+                val = func(float(val))
+            except ValueError:
+                val = None # text that is not a plain number
+        else:
+            val = None # depends on cell data
         stk.append(Operand(result_kind, val, rank, otext))
 
     def not_in_name_formula(op_arg, oname_arg):
-- 
2.43.0


From bf762c6b444e7b420cda3c1afc3be1169c5a79a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:40 +0000
Subject: [PATCH 34/53] fix: binary operators in name formulas follow Excel for
 division by zero, overflow, and comparison of texts

---
 xlrd/formula.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 78a4aa4..9e6cc5e 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -701,7 +701,13 @@ tLT, tLE, tEQ, tGE, tGT, tNE = range(0x09, 0x0F)
 def nop(x):
     return x
 
-def _opr_pow(x, y): return x ** y
+def _opr_pow(x, y):
+    if x == 0 == y:
+        raise OverflowError # Excel says #NUM!
+    result = x ** y
+    if isinstance(result, complex):
+        raise OverflowError
+    return result
 
 def _opr_lt(x, y): return x <  y
 def _opr_le(x, y): return x <= y
@@ -720,8 +726,9 @@ def num2strg(num):
     return s
 
 _arith_argdict = {oNUM: nop,     oSTRG: float}
-_cmp_argdict =   {oNUM: nop,     oSTRG: nop}
 # Seems no conversions done on relops; in Excel, "1" > 9 produces TRUE.
+# Any text is greater than any number; case is ignored in comparing text.
+_cmp_argdict =   {oNUM: lambda x: (0, x), oSTRG: lambda x: (1, x.lower())}
 _strg_argdict =  {oNUM:num2strg, oSTRG:nop}
 binop_rules = {
     tAdd:   (_arith_argdict, oNUM, opr.add,  30, '+'),
@@ -797,9 +804,21 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
         if bop.value is None or aop.value is None:
             stk.append(resop)
             return
-        bval = bconv(bop.value)
-        aval = aconv(aop.value)
-        result = func(aval, bval)
+        try:
+            bval = bconv(bop.value)
+            aval = aconv(aop.value)
+        except ValueError:
+            # text that is not a plain number
+            stk.append(resop)
+            return
+        try:
+            result = func(aval, bval)
+            if result_kind == oNUM and result - result != 0:
+                raise OverflowError
+        except ZeroDivisionError:
+            resop.kind, result = oERR, 0x07 # #DIV/0!
+        except OverflowError:
+            resop.kind, result = oERR, 0x24 # #NUM!
         if result_kind == oBOOL:
             result = 1 if result else 0
         resop.value = result
-- 
2.43.0


From a89069e046750750b291521f356c48ec63158950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:52 +0000
Subject: [PATCH 35/53] fix: parentheses in the text of formulas with operators
 of the same precedence

---
 xlrd/formula.py | 52 ++++++++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 9e6cc5e..9362372 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -790,9 +790,9 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
             aop.text,
             ')'[:aop.rank < rank],
             sym,
-            '('[:bop.rank < rank],
+            '('[:bop.rank <= rank],
             bop.text,
-            ')'[:bop.rank < rank],
+            ')'[:bop.rank <= rank],
         ])
         resop = Operand(result_kind, None, rank, otext)
         try:
@@ -888,18 +888,17 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ' '
-                rank = 80 ########## check #######
+                rank = 81
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
-                res = Operand(oREF)
-                res.text = otext
+                res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
                     res.kind = oERR
                 elif bop.kind == oUNK or aop.kind == oUNK:
@@ -938,15 +937,15 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ','
-                rank = 80 ########## check #######
+                rank = 80
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
@@ -969,15 +968,15 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ':'
-                rank = 80 ########## check #######
+                rank = 82
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
@@ -1418,9 +1417,9 @@ def decompile_formula(bk, fmla, fmlalen,
             aop.text,
             ')'[:aop.rank < rank],
             sym,
-            '('[:bop.rank < rank],
+            '('[:bop.rank <= rank],
             bop.text,
-            ')'[:bop.rank < rank],
+            ')'[:bop.rank <= rank],
         ])
         resop = Operand(result_kind, None, rank, otext)
         stk.append(resop)
@@ -1490,18 +1489,17 @@ def decompile_formula(bk, fmla, fmlalen,
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ' '
-                rank = 80 ########## check #######
+                rank = 81
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
-                res = Operand(oREF)
-                res.text = otext
+                res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
                     res.kind = oERR
                 elif bop.kind == oUNK or aop.kind == oUNK:
@@ -1526,15 +1524,15 @@ def decompile_formula(bk, fmla, fmlalen,
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ','
-                rank = 80 ########## check #######
+                rank = 80
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
@@ -1553,19 +1551,19 @@ def decompile_formula(bk, fmla, fmlalen,
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ':'
-                rank = 80 ########## check #######
+                rank = 82
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
                     ')'[:aop.rank < rank],
                     sym,
-                    '('[:bop.rank < rank],
+                    '('[:bop.rank <= rank],
                     bop.text,
-                    ')'[:bop.rank < rank],
+                    ')'[:bop.rank <= rank],
                 ])
                 res = Operand(oREF, None, rank, otext)
                 if bop.kind == oERR or aop.kind == oERR:
-                    res = oERR
+                    res.kind = oERR
                 elif bop.kind == oREF == aop.kind:
                     pass
                 else:
-- 
2.43.0


From 15046f6ac75e3af2684610a7f695492f7f5878ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:52 +0000
Subject: [PATCH 36/53] fix: text of functions with no arguments or with a list
 of references as an argument

---
 xlrd/formula.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 9362372..caf12af 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -753,6 +753,14 @@ unop_rules = {
 
 LEAF_RANK = 90
 FUNC_RANK = 90
+LIST_RANK = 80
+
+def _argtext(args):
+    """Text of function arguments; a list of references needs its own parentheses."""
+    return listsep.join(
+        '(' + arg.text + ')' if arg.rank == LIST_RANK else arg.text
+        for arg in args
+    )
 
 STACK_ALARM_LEVEL = 5
 STACK_PANIC_LEVEL = 10
@@ -937,7 +945,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ','
-                rank = 80
+                rank = LIST_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
@@ -1036,7 +1044,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     if blah: print("tAttrSum", stack, file=bk.logfile)
                     assert len(stack) >= 1
                     aop = stack[-1]
-                    otext = 'SUM(%s)' % aop.text
+                    otext = 'SUM(%s)' % _argtext([aop])
                     stack[-1] = Operand(oNUM, None, FUNC_RANK, otext)
                 else:
                     sz = 4
@@ -1084,7 +1092,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                           % (funcx, func_name, nargs), file=bk.logfile)
                 assert len(stack) >= nargs
                 if nargs:
-                    argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                    argtext = _argtext(stack[-nargs:])
                     otext = "%s(%s)" % (func_name, argtext)
                     del stack[-nargs:]
                 else:
@@ -1112,7 +1120,8 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 assert minargs <= nargs <= maxargs
                 assert len(stack) >= nargs
                 assert len(stack) >= nargs
-                argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                args = stack[len(stack)-nargs:]
+                argtext = _argtext(args)
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
                 if funcx == 1: # IF
@@ -1145,7 +1154,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                                 res.kind, res.value = oNUM, 0
                             else:
                                 res.kind, res.value = chosen.kind, chosen.value
-                del stack[-nargs:]
+                del stack[len(stack)-nargs:]
                 spush(res)
         elif opcode == 0x03: #tName
             tgtnamex = unpack("<H", data[pos+1:pos+3])[0] - 1
@@ -1524,7 +1533,7 @@ def decompile_formula(bk, fmla, fmlalen,
                 bop = stack.pop()
                 aop = stack.pop()
                 sym = ','
-                rank = 80
+                rank = LIST_RANK
                 otext = ''.join([
                     '('[:aop.rank < rank],
                     aop.text,
@@ -1603,7 +1612,7 @@ def decompile_formula(bk, fmla, fmlalen,
                     if blah: print("tAttrSum", stack, file=bk.logfile)
                     assert len(stack) >= 1
                     aop = stack[-1]
-                    otext = 'SUM(%s)' % aop.text
+                    otext = 'SUM(%s)' % _argtext([aop])
                     stack[-1] = Operand(oNUM, None, FUNC_RANK, otext)
                 else:
                     sz = 4
@@ -1650,7 +1659,7 @@ def decompile_formula(bk, fmla, fmlalen,
                           % (funcx, func_name, nargs), file=bk.logfile)
                 assert len(stack) >= nargs
                 if nargs:
-                    argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                    argtext = _argtext(stack[-nargs:])
                     otext = "%s(%s)" % (func_name, argtext)
                     del stack[-nargs:]
                 else:
@@ -1682,10 +1691,11 @@ def decompile_formula(bk, fmla, fmlalen,
                 assert minargs <= nargs <= maxargs
                 assert len(stack) >= nargs
                 assert len(stack) >= nargs
-                argtext = listsep.join(arg.text for arg in stack[-nargs:])
+                args = stack[len(stack)-nargs:]
+                argtext = _argtext(args)
                 otext = "%s(%s)" % (func_name, argtext)
                 res = Operand(oUNK, None, FUNC_RANK, otext)
-                del stack[-nargs:]
+                del stack[len(stack)-nargs:]
                 spush(res)
         elif opcode == 0x03: #tName
             tgtnamex = unpack("<H", data[pos+1:pos+3])[0] - 1
-- 
2.43.0


From 8990ca536063fb6c3b32ab47e9085cd7149c2a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:52 +0000
Subject: [PATCH 37/53] fix: CHOOSE with an index that depends on cell data

---
 xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index caf12af..4774fb8 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1147,7 +1147,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                             print("$$$$$$ IF => constant", file=bk.logfile)
                 elif funcx == 100: # CHOOSE
                     testarg = stack[-nargs]
-                    if testarg.kind == oNUM:
+                    if testarg.kind == oNUM and testarg.value is not None:
                         if 1 <= testarg.value < nargs:
                             chosen = stack[-nargs + int(testarg.value)]
                             if chosen.kind == oMSNG:
-- 
2.43.0


From e3905b2407881d7a2306e6228e334daa67d92dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:52 +0000
Subject: [PATCH 38/53] fix: error values are not quoted in the text of
 formulas

---
 xlrd/formula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 4774fb8..171fb64 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1067,7 +1067,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 elif inx == 1: # tBool
                     text = ('FALSE', 'TRUE')[value]
                 else:
-                    text = '"' +error_text_from_code[value] + '"'
+                    text = error_text_from_code[value]
                 spush(Operand(kind, value, LEAF_RANK, text))
             else:
                 raise FormulaError("Unhandled opcode: 0x%02x" % opcode)
@@ -1635,7 +1635,7 @@ def decompile_formula(bk, fmla, fmlalen,
                 elif inx == 1: # tBool
                     text = ('FALSE', 'TRUE')[value]
                 else:
-                    text = '"' +error_text_from_code[value] + '"'
+                    text = error_text_from_code[value]
                 spush(Operand(kind, None, LEAF_RANK, text))
             else:
                 raise FormulaError("Unhandled opcode: 0x%02x" % opcode)
-- 
2.43.0


From ee286b72b2bfcfd9c14c955fe85849f7af4c8575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:52 +0000
Subject: [PATCH 39/53] fix: sheet names in front of local names are quoted
 where necessary

---
 xlrd/formula.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 171fb64..12697a9 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -1182,7 +1182,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                 res.text = tgtobj.name
             else:
                 res.text = "%s!%s" \
-                           % (bk._sheet_names[tgtobj.scope], tgtobj.name)
+                           % (quotedsheetname(bk._sheet_names, tgtobj.scope), tgtobj.name)
             if blah:
                 print("    tName: setting text to", repr(res.text), file=bk.logfile)
             spush(res)
@@ -1361,7 +1361,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                     res.text = tgtobj.name
                 else:
                     res.text = "%s!%s" \
-                               % (bk._sheet_names[tgtobj.scope], tgtobj.name)
+                               % (quotedsheetname(bk._sheet_names, tgtobj.scope), tgtobj.name)
                 if blah:
                     print("    tNameX: setting text to", repr(res.text), file=bk.logfile)
             spush(res)
@@ -1705,7 +1705,7 @@ def decompile_formula(bk, fmla, fmlalen,
             if tgtobj.scope == -1:
                 otext = tgtobj.name
             else:
-                otext = "%s!%s" % (bk._sheet_names[tgtobj.scope], tgtobj.name)
+                otext = "%s!%s" % (quotedsheetname(bk._sheet_names, tgtobj.scope), tgtobj.name)
             if blah:
                 print("    tName: setting text to", repr(otext), file=bk.logfile)
             res = Operand(oUNK, None, LEAF_RANK, otext)
@@ -1889,7 +1889,7 @@ def decompile_formula(bk, fmla, fmlalen,
                     otext = tgtobj.name
                 else:
                     otext = "%s!%s" \
-                            % (bk._sheet_names[tgtobj.scope], tgtobj.name)
+                            % (quotedsheetname(bk._sheet_names, tgtobj.scope), tgtobj.name)
                 if blah:
                     print("    tNameX: setting text to", repr(res.text), file=bk.logfile)
             res = Operand(okind, ovalue, LEAF_RANK, otext)
-- 
2.43.0


From d14730008921f47b317575733a66af6f3378e11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:52 +0000
Subject: [PATCH 40/53] fix: a list of references may be the right operand of
 the list operator

---
 xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 12697a9..de07ce7 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -964,7 +964,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                         res.kind = oREL
                     if aop.value is not None and bop.value is not None:
                         assert len(aop.value) >= 1
-                        assert len(bop.value) == 1
+                        assert len(bop.value) >= 1
                         res.value = aop.value + bop.value
                 else:
                     pass
-- 
2.43.0


From d2a299c448c424afa3ed6274ac890a99e66c3778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:52 +0000
Subject: [PATCH 41/53] fix: the intersection of references that have no cell
 in common is #NULL!

---
 xlrd/formula.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index de07ce7..057ca4d 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -406,6 +406,9 @@ def do_box_funcs(box_funcs, boxa, boxb):
         for func, numa, numb in zip(box_funcs, boxa.coords, boxb.coords)
     )
 
+def _empty_box(coords):
+    return any(coords[i] >= coords[i+1] for i in (0, 2, 4))
+
 def adjust_cell_addr_biff8(rowval, colval, reldelta, browx=None, bcolx=None):
     row_rel = (colval >> 15) & 1
     col_rel = (colval >> 14) & 1
@@ -923,7 +926,10 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                         assert len(bop.value) == 1
                         coords = do_box_funcs(
                             tIsectFuncs, aop.value[0], bop.value[0])
-                        res.value = [Ref3D(coords)]
+                        if _empty_box(coords):
+                            res.kind, res.value = oERR, 0x00 # #NULL!
+                        else:
+                            res.value = [Ref3D(coords)]
                 elif bop.kind == oREL == aop.kind:
                     res.kind = oREL
                     if aop.value is not None and bop.value is not None:
@@ -933,7 +939,7 @@ def evaluate_name_formula(bk, nobj, namex, blah=0, level=0):
                             tIsectFuncs, aop.value[0], bop.value[0])
                         relfa = aop.value[0].relflags
                         relfb = bop.value[0].relflags
-                        if relfa == relfb:
+                        if relfa == relfb and not _empty_box(coords):
                             res.value = [Ref3D(coords + relfa)]
                 else:
                     pass
-- 
2.43.0


From cb5212fec11cbf3fed2ae8c90235bf27e58b3cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:07 +0000
Subject: [PATCH 42/53] fix: Name.cell() and Name.area2d() raise XLRDError for
 a reference without a known value

---
 xlrd/book.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xlrd/book.py b/xlrd/book.py
index 99f4026..bf6d9bb 100644
--- a/xlrd/book.py
+++ b/xlrd/book.py
@@ -210,7 +210,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1:
+            if kind == oREF and value and len(value) == 1:
                 ref3d = value[0]
                 if (0 <= ref3d.shtxlo == ref3d.shtxhi - 1 and
                         ref3d.rowxlo == ref3d.rowxhi - 1 and
@@ -247,7 +247,7 @@ class Name(BaseObject):
             # result should be an instance of the Operand class
             kind = res.kind
             value = res.value
-            if kind == oREF and len(value) == 1: # only 1 reference
+            if kind == oREF and value and len(value) == 1: # only 1 reference
                 ref3d = value[0]
                 if 0 <= ref3d.shtxlo == ref3d.shtxhi - 1: # only 1 usable sheet
                     sh = self.book.sheet_by_index(ref3d.shtxlo)
-- 
2.43.0


From e8f147dedc72dc4a9ed92652ba541c9b1837e61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:27 +0000
Subject: [PATCH 43/53] fix: the array constant token is one byte shorter than
 formulas assumed

---
 xlrd/formula.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 057ca4d..80c6db4 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -98,11 +98,11 @@ listsep = ',' #### probably should depend on locale
 # -1 means variable
 # -2 means this opcode not implemented in this version.
 # Which N to use? Depends on biff_version; see szdict.
-sztab0 = [-2, 4, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 8, 4, 2, 2, 3, 9, 8, 2, 3, 8, 4, 7, 5, 5, 5, 2, 4, 7, 4, 7, 2, 2, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
-sztab1 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 9, 2, 3, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
-sztab2 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 9, 3, 4, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2]
-sztab3 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, -2, -2, 2, 2, 3, 9, 9, 3, 4, 15, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 25, 18, 21, 18, 21, -2, -2]
-sztab4 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -1, -1, -2, -2, 2, 2, 3, 9, 9, 3, 4, 5, 5, 9, 7, 7, 7, 3, 5, 9, 5, 9, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 7, 7, 11, 7, 11, -2, -2]
+sztab0 = [-2, 4, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 8, 4, 2, 2, 3, 9, 7, 2, 3, 8, 4, 7, 5, 5, 5, 2, 4, 7, 4, 7, 2, 2, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
+sztab1 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 8, 2, 3, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, 3, -2, -2, -2, -2, -2, -2, -2]
+sztab2 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, 11, 5, 2, 2, 3, 9, 8, 3, 4, 11, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2]
+sztab3 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -2, -1, -2, -2, 2, 2, 3, 9, 8, 3, 4, 15, 4, 7, 7, 7, 7, 3, 4, 7, 4, 7, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 25, 18, 21, 18, 21, -2, -2]
+sztab4 = [-2, 5, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, -1, -1, -1, -2, -2, 2, 2, 3, 9, 8, 3, 4, 5, 5, 9, 7, 7, 7, 3, 5, 9, 5, 9, 3, 3, -2, -2, -2, -2, -2, -2, -2, -2, -2, 7, 7, 11, 7, 11, -2, -2]
 
 szdict = {
     20 : sztab0,
-- 
2.43.0


From 5f1bdbd066b986f80b24a88c3e7fd90c597eaca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:32 +0000
Subject: [PATCH 44/53] fix: negative zero as text in name formulas

---
 xlrd/formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/formula.py b/xlrd/formula.py
index 80c6db4..d3664fa 100644
--- a/xlrd/formula.py
+++ b/xlrd/formula.py
@@ -723,7 +723,7 @@ def num2strg(num):
     """
     Attempt to emulate Excel's default conversion from number to string.
     """
-    s = str(num)
+    s = str(num + 0.0) # Excel has no negative zero
     if s.endswith(".0"):
         s = s[:-2]
     return s
-- 
2.43.0


From daf4633a318a88e4fc8de42b5ea2e8cb161fffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:03 +0000
Subject: [PATCH 45/53] fix: runxlrd.py used xlrd.USE_MMAP, which no longer
 exists, and failed for every file

---
 scripts/runxlrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/runxlrd.py b/scripts/runxlrd.py
index b284a59..cca6ef2 100644
--- a/scripts/runxlrd.py
+++ b/scripts/runxlrd.py
@@ -300,7 +300,7 @@ if __name__ == "__main__":
         else:
             logfile = sys.stdout
         mmap_opt = options.mmap
-        mmap_arg = xlrd.USE_MMAP
+        mmap_arg = True
         if mmap_opt in (1, 0):
             mmap_arg = mmap_opt
         elif mmap_opt != -1:
-- 
2.43.0


From c36f99001e3429796a3b9e15216b49ef23adadb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:03 +0000
Subject: [PATCH 46/53] fix: runxlrd.py show left out the last but one row of a
 sheet with 65536 rows

---
 scripts/runxlrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/runxlrd.py b/scripts/runxlrd.py
index cca6ef2..9670142 100644
--- a/scripts/runxlrd.py
+++ b/scripts/runxlrd.py
@@ -166,7 +166,7 @@ if __name__ == "__main__":
                 print_labels(sh, rlabs, 'Row')
             if bk.on_demand: bk.unload_sheet(shx)
 
-    def show(bk, nshow=65535, printit=1):
+    def show(bk, nshow=65536, printit=1):
         bk_header(bk)
         if 0:
             rclist = xlrd.sheet.rc_stats.items()
-- 
2.43.0


From 4a837120f50dfb6870de99ca738bf9dfcadd37dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:03 +0000
Subject: [PATCH 47/53] fix: messages sent to the log file of runxlrd.py could
 get lost

---
 scripts/runxlrd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/runxlrd.py b/scripts/runxlrd.py
index 9670142..6308ccd 100644
--- a/scripts/runxlrd.py
+++ b/scripts/runxlrd.py
@@ -57,6 +57,7 @@ if __name__ == "__main__":
                 self.logfileobj.write(self.fileheading)
                 self.shown = 1
             self.logfileobj.write(text)
+            self.logfileobj.flush()
 
     null_cell = xlrd.empty_cell
 
-- 
2.43.0


From e527c5e67f67d53cdb9930c3f6f04b32c6f86846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:25 +0000
Subject: [PATCH 48/53] fix: runxlrd.py labels failed for label ranges that go
 beyond the cells of a row

---
 scripts/runxlrd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/runxlrd.py b/scripts/runxlrd.py
index 6308ccd..0143d5f 100644
--- a/scripts/runxlrd.py
+++ b/scripts/runxlrd.py
@@ -146,8 +146,8 @@ if __name__ == "__main__":
         for rlo, rhi, clo, chi in labs:
             print("%s label range %s:%s contains:"
                 % (title, xlrd.cellname(rlo, clo), xlrd.cellname(rhi-1, chi-1)))
-            for rx in xrange(rlo, rhi):
-                for cx in xrange(clo, chi):
+            for rx in xrange(rlo, min(rhi, sh.nrows)):
+                for cx in xrange(clo, min(chi, sh.row_len(rx))):
                     print("    %s: %r" % (xlrd.cellname(rx, cx), sh.cell_value(rx, cx)))
 
     def show_labels(bk):
-- 
2.43.0


From c4299dc380fd44b7da98a8cf1e1b191a89cd9a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:26 +0000
Subject: [PATCH 49/53] fix: rich text runs of RSTRING cells are reported only
 with formatting_info, and only if there are any

---
 xlrd/sheet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index befc91c..4030703 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -866,7 +866,8 @@ class Sheet(BaseObject):
                         pos += 4
                     assert pos == len(data)
                 self_put_cell(rowx, colx, XL_CELL_TEXT, strg, xf_index)
-                self.rich_text_runlist_map[(rowx, colx)] = runlist
+                if fmt_info and runlist:
+                    self.rich_text_runlist_map[(rowx, colx)] = runlist
             elif rc == XL_RK:
                 rowx, colx, xf_index = local_unpack('<HHH', data[:6])
                 d = unpack_RK(data[6:10])
-- 
2.43.0


From 75fd2d0031f7dddfccf851590bedf26feed8bc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:27 +0000
Subject: [PATCH 50/53] fix: the rich text runs of a cell that is overwritten
 by another record are dropped

---
 xlrd/sheet.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 4030703..04a9732 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -661,6 +661,9 @@ class Sheet(BaseObject):
         if ctype is None:
             # we have a number, so look up the cell type
             ctype = self._xf_index_to_xl_type_map[xf_index]
+        if self.rich_text_runlist_map:
+            # runs belong to the text that a previous record put in this cell
+            self.rich_text_runlist_map.pop((rowx, colx), None)
         assert 0 <= colx < self.utter_max_cols
         assert 0 <= rowx < self.utter_max_rows
         fmt_info = self.formatting_info
@@ -720,6 +723,9 @@ class Sheet(BaseObject):
         if ctype is None:
             # we have a number, so look up the cell type
             ctype = self._xf_index_to_xl_type_map[xf_index]
+        if self.rich_text_runlist_map:
+            # runs belong to the text that a previous record put in this cell
+            self.rich_text_runlist_map.pop((rowx, colx), None)
         # assert 0 <= colx < self.utter_max_cols
         # assert 0 <= rowx < self.utter_max_rows
         try:
-- 
2.43.0


From 74c27f585e35d4691a4146cda06672fd70d342f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:27 +0000
Subject: [PATCH 51/53] fix: BIFF2 ROW records with a 16-bit XF index of 63
 refer to XF 63, not to the last IXFE

---
 xlrd/sheet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index 04a9732..b33b231 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1615,7 +1615,7 @@ class Sheet(BaseObject):
                     xfx = true_xfx
                 else:
                     xfx = BYTES_ORD(cell_attr[0]) & 0x3F
-                if xfx == 0x3F:
+                if xfx == 0x3F and true_xfx is None:
                     if self._ixfe is None:
                         raise XLRDError("BIFF2 cell record has XF index 63 but no preceding IXFE record.")
                     xfx = self._ixfe
-- 
2.43.0


From 695e838c970bd4a8b0507f0dc2ce923a3c076376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:23 +0000
Subject: [PATCH 52/53] fix: CF records with number format, alignment or
 protection blocks no longer fail the load with formatting_info

---
 xlrd/sheet.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index b33b231..d10dcc4 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1239,10 +1239,9 @@ class Sheet(BaseObject):
                             font_style, posture, font_canc, cancellation,
                         )
                     pos += 118
-                if bord_block:
-                    pos += 8
-                if patt_block:
-                    pos += 4
+                # Other blocks (number format, alignment, border, pattern, protection)
+                # may surround the font block; the formulas end the record.
+                pos = data_len - sz1 - sz2
                 fmla1 = data[pos:pos+sz1]
                 pos += sz1
                 if blah and sz1:
-- 
2.43.0


From 8e6bfae7637f5686b8e2642389fe31fb3246c19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:11 +0000
Subject: [PATCH 53/53] fix: the version reported for a BIFF2.0 file without
 cells other than blank ones depended on formatting_info

---
 xlrd/sheet.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xlrd/sheet.py b/xlrd/sheet.py
index d10dcc4..2176da2 100644
--- a/xlrd/sheet.py
+++ b/xlrd/sheet.py
@@ -1517,6 +1517,10 @@ class Sheet(BaseObject):
         if not eof_found:
             raise XLRDError("Sheet %d (%r) missing EOF record"
                 % (self.number, self.name))
+        if self.biff_version == 21 and not bk.xf_list:
+            # Excel 2.0, or broken 2.1 w/o XF records; known by now if a cell
+            # has been seen, but blank cells are seen only with formatting_info.
+            self.biff_version = bk.biff_version = 20
         self.tidy_dimensions()
         self.update_cooked_mag_factors()
         bk._position = oldpos
-- 
2.43.0

