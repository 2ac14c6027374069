From 2d56bcd5b27f286042415d64a46a6a52fa3800e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 001/157] fix: Pipe.readall restores the read blocking mode
 (typo)

---
 pyslet/streams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 65baddd..536afe5 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -592,7 +592,7 @@ class Pipe(io.RawIOBase):
                     else:
                         data.append(part)
             finally:
-                self.rlocking = save_rblocking
+                self.rblocking = save_rblocking
 
     def _consolidate_buffer(self):
         with self.lock:
-- 
2.43.0


From 875eac1a06d1296161f99abc26455a518e4c35c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 002/157] fix: Pipe.readmatch no longer leaks buffer space when
 consolidating

---
 pyslet/streams.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 536afe5..15f8c8a 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -599,6 +599,8 @@ class Pipe(io.RawIOBase):
             if self.buffer:
                 if self.rpos:
                     self.buffer[0] = self.buffer[0][self.rpos:]
+                    # the bytes already read no longer count
+                    self.bsize = self.bsize - self.rpos
                     self.rpos = 0
                 self.buffer = [b''.join(self.buffer)]
 
-- 
2.43.0


From 7d2c51e6ed0bbc646253ec0e3c6abc4b2c0b3252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 003/157] fix: writing an empty bytearray to a Pipe no longer
 looks like EOF

---
 pyslet/streams.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 15f8c8a..d3641b3 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -487,6 +487,9 @@ class Pipe(io.RawIOBase):
                 return nbytes
             elif isinstance(b, bytearray):
                 nbytes = len(b)
+                if not nbytes:
+                    # an empty string in the buffer would look like EOF
+                    return nbytes
                 if nbytes > wlen:
                     nbytes = wlen
                     # partial copy, creates transient bytearray :(
-- 
2.43.0


From 6894e2b0b94d97edc4b2074cea20a712c522dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 004/157] fix: BufferedStreamWrapper.seek returns the new
 position

---
 pyslet/streams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index d3641b3..962da67 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -127,7 +127,7 @@ class BufferedStreamWrapper(io.RawIOBase):
         else:
             raise ValueError("unrecognized whence value in seek: %s" %
                              repr(whence))
-        self.buff.seek(self.pos)
+        return self.buff.seek(self.pos)
 
     def readinto(self, b):
         if self.pos < self.bsize:
-- 
2.43.0


From d5a6a04cfd53269c6fe8853affebfa78cd18644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 005/157] fix: streams opened from a StreamStore in append mode
 are writable

---
 pyslet/blockstore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 32f5e9e..c41fbb4 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -628,7 +628,7 @@ class BlockStream(io.RawIOBase):
         self.ss = ss
         self.stream = stream
         self.r = "r" in mode or "+" in mode
-        self.w = "w" in mode or "+" in mode
+        self.w = "w" in mode or "a" in mode or "+" in mode
         self.size = stream['size'].value
         self.block_size = self.ss.bs.max_block_size
         self._bdata = None
-- 
2.43.0


From 412f69626a186e39458cff3ea96204ba5572b746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 006/157] fix: opening a stream from a StreamStore for writing
 truncates it

---
 pyslet/blockstore.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index c41fbb4..708904e 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -647,6 +647,11 @@ class BlockStream(io.RawIOBase):
                 self.blocks = []
                 self._md5 = hashlib.md5()
                 self._md5num = 0
+                if self.size:
+                    # the stream has been truncated, force an update
+                    self.size = 0
+                    self._set_btop()
+                    self._bdirty = True
             else:
                 self.blocks = list(self.ss.retrieve_blocklist(self.stream))
 
@@ -691,7 +696,7 @@ class BlockStream(io.RawIOBase):
     def flush(self):
         if self._bdirty:
             # the current block is dirty, write it out
-            data = self._bdata[:self._btop]
+            data = self._bdata[:self._btop] if self._bdata else None
             if data:
                 block = self.blocks[self._bnum]
                 if block.exists:
-- 
2.43.0


From 6bea8110621d97557fd8542d90c8f27cff4a3274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 007/157] fix: reading a stored stream beyond its last block
 returns EOF

---
 pyslet/blockstore.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 708904e..fd95dfb 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -687,9 +687,13 @@ class BlockStream(io.RawIOBase):
         self._set_btop()
 
     def _set_btop(self):
-        if self.size // self.block_size == self._bnum:
+        last_bnum = self.size // self.block_size
+        if last_bnum == self._bnum:
             # we're pointing to the last block
             self._btop = self.size % self.block_size
+        elif last_bnum < self._bnum:
+            # we're pointing beyond the end of the stream
+            self._btop = 0
         else:
             self._btop = self.block_size
 
-- 
2.43.0


From 2d8e4086874ac42ba3fa17359dd4b0c6bb26850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 008/157] fix: writing beyond the last block of a stored stream
 fills the gap

---
 pyslet/blockstore.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index fd95dfb..8acfdbe 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -758,6 +758,13 @@ class BlockStream(io.RawIOBase):
             if self._btop <= 0:
                 # add a new empty blocks first
                 last_block = len(self.blocks)
+                if self.size % self.block_size:
+                    # fill up the (incomplete) last block
+                    block = self.blocks[last_block - 1]
+                    data = self.ss.retrieve_block(block)
+                    self.ss.update_block(
+                        block, data + b'\x00' * (self.block_size - len(data)))
+                    self._md5 = None
                 while last_block < self._bnum:
                     self.blocks.append(self.ss.store_block(
                         self.stream, last_block, bytearray(self.block_size)))
-- 
2.43.0


From b0ca5590e07a3f8ddbd6ed8ed96601175c377905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 009/157] fix: BlockStream.seek returns the new position

---
 pyslet/blockstore.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 8acfdbe..34f8e5b 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -685,6 +685,7 @@ class BlockStream(io.RawIOBase):
             self._bnum = new_bnum
         self._bpos = self.pos % self.block_size
         self._set_btop()
+        return self.pos
 
     def _set_btop(self):
         last_bnum = self.size // self.block_size
-- 
2.43.0


From cd2218a593d8b28773f8c1bcf0d23dd0e1fd08dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 010/157] fix: SQL connection pool uses Thread.is_alive
 (isAlive was removed in Python 3.9)

---
 pyslet/odata2/sqlds.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index b96ba75..4712984 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -4809,7 +4809,7 @@ class SQLEntityContainer(object):
         with self.cpool_lock:
             locked_list = list(dict_values(self.cpool_locked))
             for cpool_item in locked_list:
-                if not cpool_item.thread.isAlive():
+                if not cpool_item.thread.is_alive():
                     logging.error(
                         "Thread[%i] failed to release database connection "
                         "before terminating", cpool_item.thread_id)
@@ -4817,7 +4817,7 @@ class SQLEntityContainer(object):
                     to_close.append(cpool_item.dbc)
             unlocked_list = list(dict_values(self.cpool_unlocked))
             for cpool_item in unlocked_list:
-                if not cpool_item.thread.isAlive():
+                if not cpool_item.thread.is_alive():
                     logging.debug(
                         "pool_cleaner moving database connection to idle "
                         "after Thread[%i] terminated",
@@ -4923,7 +4923,7 @@ class SQLEntityContainer(object):
                             "before closing container", cpool_item.thread_id)
                         del self.cpool_locked[cpool_item.thread_id]
                         to_close.append(cpool_item.dbc)
-                    elif not cpool_item.thread.isAlive():
+                    elif not cpool_item.thread.is_alive():
                         logging.error(
                             "Thread[%i] failed to release database connection "
                             "before terminating", cpool_item.thread_id)
-- 
2.43.0


From f2e60de900bb09396f645220102d9cbf52f49835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 011/157] fix: ISO8601 parser reports syntax errors instead of
 failing with AttributeError, TypeError etc.

---
 pyslet/iso8601.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 133de00..12c7e99 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -2972,7 +2972,7 @@ class ISO8601Parser(BasicParser):
                                 century=v1, decade=v2 // 10, year=v2 %
                                 10, week=v3, base=base), "YYYY-Www"
                     else:
-                        self.BadSyntax("expected digit or W in ISO date")
+                        self.parser_error("expected digit or W in ISO date")
                 elif self.the_char == "W":
                     self.next_char()
                     v3 = self.require_digit_value()
@@ -3004,7 +3004,7 @@ class ISO8601Parser(BasicParser):
                         return Date(
                             year=v1, month=v2, day=v3, base=base), "YY-MM-DD"
                     else:
-                        self.BadSyntax(
+                        self.parser_error(
                             "expected digit or hyphen in ISO date")
                 elif self.the_char == "W":
                     self.next_char()
@@ -3021,7 +3021,7 @@ class ISO8601Parser(BasicParser):
                             decade=v1 // 10, year=v1 %
                             10, week=v2, base=base), "YY-Www"
                 else:
-                    self.BadSyntax("expected digit or W in ISO date")
+                    self.parser_error("expected digit or W in ISO date")
             elif self.the_char == "W":
                 self.next_char()
                 v2 = self.require_digit_value()
@@ -3080,6 +3080,9 @@ class ISO8601Parser(BasicParser):
                             year=v1, week=v2, weekday=v3, base=base), "-YWwwD"
                     else:
                         return Date(year=v1, week=v2, base=base), "-YWww"
+                else:
+                    self.parser_error(
+                        "expected digit, hyphen or W in truncated ISO date")
             elif self.the_char == "-":
                 self.next_char()
                 if self.match_digit():
@@ -3102,7 +3105,7 @@ class ISO8601Parser(BasicParser):
                     v1 = v1 * 10 + self.require_digit_value()
                     return Date(day=v1, base=base), "---DD"
                 else:
-                    self.BadSyntax(
+                    self.parser_error(
                         "expected digit or hyphen in truncated ISO date")
             elif self.the_char == "W":
                 self.next_char()
@@ -3123,13 +3126,13 @@ class ISO8601Parser(BasicParser):
                     v1 = self.require_digit_value()
                     return Date(weekday=v1, base=base), "-W-D"
                 else:
-                    self.BadSyntax(
+                    self.parser_error(
                         "expected digit or hyphen in truncated ISO date")
             else:
-                self.BadSyntax(
+                self.parser_error(
                     "expected digit, hyphen or W in truncated ISO date")
         else:
-            self.BadSyntax("expected digit or hyphen in ISO date")
+            self.parser_error("expected digit or hyphen in ISO date")
 
     def parse_date(self, date, base=None):
         raise DateTimeError(
@@ -3202,7 +3205,7 @@ class ISO8601Parser(BasicParser):
                 tformat = "hh"
         elif self.the_char == "-":
             if tdesignator:
-                self.BadSyntax("time designator T before truncated time")
+                self.parser_error("time designator T before truncated time")
             self.next_char()
             if self.match_digit():
                 v1 = self.require_digit_value()
@@ -3251,12 +3254,14 @@ class ISO8601Parser(BasicParser):
                     hour, minute, second = None, None, v1
                     tformat = "--ss"
             else:
-                self.BadSyntax("expected digit or hyphen in truncated Time")
+                self.parser_error("expected digit or hyphen in truncated Time")
             # truncated forms cannot take timezones, return early
+            if base is None:
+                raise DateTimeError("truncated time with no base")
             t, overflow = base.extend(hour=hour, minute=minute, second=second)
             return t, overflow, tformat
         else:
-            self.BadSyntax("expected digit or hyphen in Time")
+            self.parser_error("expected digit or hyphen in Time")
         if self.the_char is not None and self.the_char in "Z+-":
             # can't be truncated form
             zdirection, zhour, zminute, tzFormat = \
@@ -3302,6 +3307,8 @@ class ISO8601Parser(BasicParser):
             else:
                 zdirection, zhour, zminute = v1, v2, None
                 format = "+hh"
+        else:
+            self.parser_error("expected time zone")
         return zdirection, zhour, zminute, format
 
     def parse_time(self, t, tbase=None, tdesignators="T"):
@@ -3326,7 +3333,7 @@ class ISO8601Parser(BasicParser):
         value = self.parse_integer()
         if value is None:
             return None, None
-        if self.the_char in ".,":
+        if self.the_char is not None and self.the_char in ".,":
             if not allow_fraction:
                 raise DateTimeError(
                     "fractional component in duration must have lowest order")
@@ -3435,7 +3442,7 @@ class ISO8601Parser(BasicParser):
 
     def parse_fraction(self):
         if not (self.the_char == "." or self.the_char == ","):
-            self.BadSyntax("expected decimal sign")
+            self.parser_error("expected decimal sign")
         self.next_char()
         f = 0
         fmag = 1
@@ -3443,7 +3450,7 @@ class ISO8601Parser(BasicParser):
             f = f * 10 + self.require_digit_value()
             fmag *= 10
         if fmag == 1:
-            self.BadSyntax("expected decimal digit")
+            self.parser_error("expected decimal digit")
         return float(f) / float(fmag)
 
     def require_digit_value(self):
-- 
2.43.0


From 4fd767cd65846e6289695a1882e4df19a5f1a71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 012/157] fix: ISO8601 dates reject day 000, week 00 and
 absolute day 0 instead of ignoring them

---
 pyslet/iso8601.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 12c7e99..f351048 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -224,12 +224,13 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
         absolute_day = kwargs.get('absoluteDay', absolute_day)
         if src is None:
             # explicit form
-            if absolute_day:
+            if absolute_day is not None:
                 self._set_from_absolute_day(absolute_day)
-            elif decade or week or weekday:
+            elif (decade is not None or week is not None or
+                    weekday is not None):
                 self._set_from_week_day(
                     century, decade, year, week, weekday, base)
-            elif ordinal_day:
+            elif ordinal_day is not None:
                 self._set_from_ordinal_day(century, year, ordinal_day, base)
             elif century is None and base is None:
                 # use the origin, but everything else must be None too
@@ -449,7 +450,7 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
         else:
             if weekday <= 0 or weekday > 7:
                 raise DateTimeError("weekday %i out of range" % weekday)
-        if week is not None and (week < 0 or week > 53):
+        if week is not None and (week < 1 or week > 53):
             raise DateTimeError("week %i out of range" % week)
         if year is not None and (year < 0 or year > 9):
             raise DateTimeError("year %i within decade is out of range")
-- 
2.43.0


From 74aedc4b139e221d6cbcda9b3116d0f894590df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 013/157] fix: ISO8601 truncated time -mm matching the minute
 of its base no longer raises TypeError

---
 pyslet/iso8601.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index f351048..7d7c8d7 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1428,6 +1428,7 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
                 new_minute = minute
                 new_second = second
                 if new_minute < base_minute or (new_minute == base_minute and
+                                                new_second is not None and
                                                 new_second < base_second):
                     add_hour = 1
         else:
-- 
2.43.0


From a7313359ddd16eb9b2fd93b18713411352b01785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 014/157] fix: offsetting and shifting the zone of times with
 fractional components

---
 pyslet/iso8601.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 7d7c8d7..1b22156 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1467,8 +1467,8 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
                 raise DateTimeError("second precision required")
             second = second + seconds
             if isinstance(second, float):
-                fs, s = modf(second)
-                s = int(s)
+                s = int(floor(second))
+                fs = second - s
                 minutes += s // 60
                 second = float(s % 60) + fs
             else:
@@ -1482,10 +1482,10 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
             if isinstance(minute, float):
                 if second is not None:
                     raise DateTimeError("minute precision required")
-                fm, m = modf(minute)
-                m = int(m)
-                hours += minute // 60
-                minute = float(minute % 60) + fm
+                m = int(floor(minute))
+                fm = minute - m
+                hours += m // 60
+                minute = float(m % 60) + fm
             else:
                 hours += minute // 60
                 minute = minute % 60
@@ -1495,10 +1495,10 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
             if isinstance(hour, float):
                 if minute is not None:
                     raise DateTimeError("hour precision required")
-                fh, h = modf(hour)
-                h = int(h)
-                days += float(h // 24)
-                hour = float(hour % 24) + fh
+                h = int(floor(hour))
+                fh = hour - h
+                days += h // 24
+                hour = float(h % 24) + fh
             else:
                 days += hour // 24
                 hour = hour % 24
@@ -1563,14 +1563,14 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
         hour = self.hour
         if minute is not None:
             minute = minute + zshift % 60
-            if minute > 59:
+            if minute >= 60:
                 hour += 1
                 minute -= 60
             elif minute < 0:
                 hour -= 1
                 minute += 60
         hour = hour + zshift // 60
-        if hour > 23:
+        if hour >= 24:
             hour -= 24
             overflow = 1
         elif hour < 0:
-- 
2.43.0


From e970139da4189b6f81ebc9ec982f97aa86528cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 015/157] fix: formatting durations expressed in weeks

---
 pyslet/iso8601.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 1b22156..048953f 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -2698,7 +2698,17 @@ class Duration(UnicodeMixin, PEP8Compatibility):
             else:
                 return 'P' + date_part
         else:
-            raise NotImplementedError
+            weeks = self.get_week_duration()
+            if isinstance(weeks, float):
+                fraction, weeks = modf(weeks)
+                weeks = str(int(weeks))
+                if ndp:
+                    dp = "," if ndp > 0 else "."
+                    ndp = abs(ndp)
+                    fraction = int(
+                        floor((fraction + 2e-13) * float(10 ** ndp)))
+                    weeks = "%s%s%0*i" % (weeks, dp, ndp, fraction)
+            return 'P%sW' % weeks
 
     def set_from_duration(self, src):
         self.years = src.years
-- 
2.43.0


From 45d14243531843a08612b4da16a4c108bcbb86ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 016/157] fix: truncated ISO8601 week dates roll over the
 century in reduced precision forms

---
 pyslet/iso8601.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 048953f..72673b4 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -495,6 +495,9 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
                                self.day is not None and
                                self.day < base_weekday)))):
                         self.year += (baseDecade + 1) * 10
+                        if self.year > 99:
+                            self.year -= 100
+                            self._add_century()
                     else:
                         self.year += baseDecade * 10
             else:
-- 
2.43.0


From 96c9ef1bcb73aa52f07d4d5ce5688ad805d92172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 017/157] fix: ISO8601 times accept fractional minutes between
 59 and 60

---
 pyslet/iso8601.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 72673b4..0045187 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1938,7 +1938,7 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
             return
         if not isinstance(self.hour, int):
             raise DateTimeError("bad fractional hour %s" % str(self.hour))
-        if self.minute < 0 or self.minute > 59:
+        if self.minute < 0 or self.minute >= 60:
             raise DateTimeError("minute out of range %s" % str(self.minute))
         if self.second is None:
             return
-- 
2.43.0


From e10d406d7f8a65bd1669c40d0b069c7d9a8579cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 018/157] fix: ISO8601 durations only allow a fraction in the
 lowest order component

---
 pyslet/iso8601.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 0045187..fdd08b2 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -3348,10 +3348,10 @@ class ISO8601Parser(BasicParser):
         value = self.parse_integer()
         if value is None:
             return None, None
+        if not allow_fraction:
+            raise DateTimeError(
+                "fractional component in duration must have lowest order")
         if self.the_char is not None and self.the_char in ".,":
-            if not allow_fraction:
-                raise DateTimeError(
-                    "fractional component in duration must have lowest order")
             format = "n" + self.the_char + "n"
             value = value + self.parse_fraction()
         else:
-- 
2.43.0


From 2df3f349bdcbbbf2e52278aabb5bb5c64085548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 019/157] fix: shifting times between zones more than 24 hours
 apart

---
 pyslet/iso8601.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index fdd08b2..7f40ad0 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -1536,8 +1536,9 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
 
             (<Time instance>, overflow)
 
-        overflow is one of -1, 0 or 1 indicating if the time over- or
-        under-flowed as a result of the time zone shift."""
+        overflow is the number of days, typically -1, 0 or 1, by which
+        the time over- or under-flowed as a result of the time zone
+        shift."""
         zdirection = kwargs.get('zDirection', zdirection)
         zhour = kwargs.get('zHour', zhour)
         zminute = kwargs.get('zMinute', zminute)
@@ -1573,14 +1574,14 @@ class Time(PEP8Compatibility, UnicodeMixin, SortableMixin):
                 hour -= 1
                 minute += 60
         hour = hour + zshift // 60
-        if hour >= 24:
+        overflow = 0
+        while hour >= 24:
+            # twice if shifting between extreme zones
             hour -= 24
-            overflow = 1
-        elif hour < 0:
+            overflow += 1
+        while hour < 0:
             hour += 24
-            overflow = -1
-        else:
-            overflow = 0
+            overflow -= 1
         return type(self)(hour=hour, minute=minute, second=second,
                           zdirection=zdirection, zhour=zhour,
                           zminute=zminute), overflow
-- 
2.43.0


From 9b18b4ee6af2afbc41ea77fda1e00e7af92160c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 020/157] fix: relative URI of a longer or colon-bearing path
 resolves back to it

---
 pyslet/rfc2396.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/pyslet/rfc2396.py b/pyslet/rfc2396.py
index 835a242..6528ea8 100755
--- a/pyslet/rfc2396.py
+++ b/pyslet/rfc2396.py
@@ -529,23 +529,22 @@ def normalize_segments(path_segments):
 
 
 def _relativize_segments(path_segments, base_segments):
-    result = []
+    # skip the directories the paths have in common, the last segment of
+    # base is never part of the context for resolution
     pos = 0
-    while pos < len(base_segments):
-        if result:
-            result = ['..'] + result
-        else:
-            if (pos >= len(path_segments) or
-                    base_segments[pos] != path_segments[pos]):
-                result = result + path_segments[pos:]
+    pos_max = min(len(path_segments), len(base_segments)) - 1
+    while pos < pos_max and base_segments[pos] == path_segments[pos]:
         pos = pos + 1
-    if not result and len(path_segments) > len(base_segments):
-        # full match but path_segments is longer
-        return path_segments[len(base_segments) - 1:]
-    elif result == ['']:
-        return ['.'] + result
+    result = (['..'] * (len(base_segments) - 1 - pos)) + path_segments[pos:]
+    return _protect_rel_path(result)
+
+
+def _protect_rel_path(segments):
+    # stops a relative path looking like an absolute path or a scheme
+    if segments and (not segments[0] or ':' in segments[0]):
+        return ['.'] + segments
     else:
-        return result
+        return segments
 
 
 def _make_rel_path_abs(abs_path, base_path):
-- 
2.43.0


From 267f18a558baaa56f034661c082cb98bc28427c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 021/157] fix: URI resolved against a base with no path, or
 giving an odd first segment

---
 pyslet/rfc2396.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/rfc2396.py b/pyslet/rfc2396.py
index 6528ea8..e48716a 100755
--- a/pyslet/rfc2396.py
+++ b/pyslet/rfc2396.py
@@ -1202,7 +1202,7 @@ class URI(CmpMixin, PEP8Compatibility):
         if self.authority is None:
             authority = base.authority
             if self.abs_path is None:
-                if base.abs_path is not None:
+                if base.abs_path is not None or base.authority is not None:
                     segments = split_abs_path(base.abs_path)[:-1]
                     segments = segments + split_rel_path(self.rel_path)
                     normalize_segments(segments)
@@ -1213,7 +1213,7 @@ class URI(CmpMixin, PEP8Compatibility):
                     segments = segments + split_rel_path(self.rel_path)
                     normalize_segments(segments)
                     abs_path = None
-                    rel_path = '/'.join(segments)
+                    rel_path = '/'.join(_protect_rel_path(segments))
                     if rel_path == '':
                         # degenerate case, as we are relative we won't prefix
                         # with /
-- 
2.43.0


From b5c9d2b02139bdf5ce462dd877cf6213f3d5eaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 022/157] fix: http URL without a path is canonically the root,
 opaque part kept

---
 pyslet/http/params.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 2a083cc..baf6efb 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -253,11 +253,15 @@ class HTTPURL(uri.ServerBasedURL):
                 if port != self.DEFAULT_PORT:
                     new_uri.append(':')
                     new_uri.append("%i" % int(self.port))
-        if self.abs_path is not None:
+        if self.opaque_part is not None:
+            new_uri.append(self.opaque_part)
+        elif self.abs_path is not None:
             if not self.abs_path:
                 new_uri.append("/")
             else:
                 new_uri.append(uri.canonicalize_data(self.abs_path))
+        elif self.authority is not None:
+            new_uri.append("/")
         elif self.rel_path is not None:
             new_uri.append(uri.canonicalize_data(self.rel_path))
         if self.query is not None:
-- 
2.43.0


From 648a82b301844b23d70f629fa906369a86cee124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 023/157] fix: URN fragments distinguished, bad URN reported as
 URIException

---
 pyslet/urn.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyslet/urn.py b/pyslet/urn.py
index 324510d..cf07279 100755
--- a/pyslet/urn.py
+++ b/pyslet/urn.py
@@ -166,6 +166,8 @@ class URN(uri.URI):
 
     def parse_scheme_specific_part(self):
         super(URN, self).parse_scheme_specific_part()
+        if self.opaque_part is None:
+            raise uri.URIException("Expected NID in URN: %s" % self.octets)
         pos = 0
         self.nid = self.nss = None
         mode = 0
@@ -212,9 +214,12 @@ class URN(uri.URI):
             raise uri.URIException("NID value of 'urn' is not allowed in URN")
 
     def canonicalize(self):
-        return uri.URI.from_octets(
-            "%s:%s:%s" % (self.scheme.lower(), self.nid.lower(),
-                          uri.canonicalize_data(self.nss, lambda x: False)))
+        result = "%s:%s:%s" % (
+            self.scheme.lower(), self.nid.lower(),
+            uri.canonicalize_data(self.nss, lambda x: False))
+        if self.fragment is not None:
+            result = result + '#' + self.fragment
+        return uri.URI.from_octets(result)
 
 
 uri.URI.register('urn', URN)
-- 
2.43.0


From d8cfb493c87595ede72d2fab683926ae0e901b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 024/157] fix: canonical URI keeps the opaque part and the
 empty fragment

---
 pyslet/rfc2396.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/rfc2396.py b/pyslet/rfc2396.py
index e48716a..7adfc54 100755
--- a/pyslet/rfc2396.py
+++ b/pyslet/rfc2396.py
@@ -1117,7 +1117,7 @@ class URI(CmpMixin, PEP8Compatibility):
         else:
             # we don't need to look inside the URI
             new_uri.append(self.octets)
-        if self.fragment:
+        if self.fragment is not None:
             new_uri.append('#')
             new_uri.append(self.fragment)
         return URI.from_octets(''.join(new_uri))
@@ -1509,7 +1509,9 @@ class ServerBasedURL(URI):
                 if port != self.DEFAULT_PORT:
                     new_uri.append(':')
                     new_uri.append("%i" % int(self.port))
-        if self.abs_path is not None:
+        if self.opaque_part is not None:
+            new_uri.append(self.opaque_part)
+        elif self.abs_path is not None:
             new_uri.append(self.abs_path)
         elif self.rel_path is not None:
             new_uri.append(self.rel_path)
-- 
2.43.0


From 251fb9827c350e6d17c4fd63bb642ec6113a4548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 025/157] fix: a copied character class no longer shares ranges
 with the original

---
 pyslet/unicode5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/unicode5.py b/pyslet/unicode5.py
index 2a48b2e..03b0776 100644
--- a/pyslet/unicode5.py
+++ b/pyslet/unicode5.py
@@ -501,7 +501,7 @@ class CharClass(UnicodeMixin):
         else:
             # take a short cut here, if we have no ranges yet just copy them
             for r in c.ranges:
-                self.ranges.append(r)
+                self.ranges.append(list(r))
         self._clear_cache()
 
     def subtract_class(self, c):
-- 
2.43.0


From d486e046d72ded66e9c5acf86e21bab8db97cf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 026/157] fix: regular expressions for the full class and for
 all but backslash

---
 pyslet/unicode5.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyslet/unicode5.py b/pyslet/unicode5.py
index 03b0776..af9a475 100644
--- a/pyslet/unicode5.py
+++ b/pyslet/unicode5.py
@@ -259,12 +259,15 @@ class CharClass(UnicodeMixin):
             neg = CharClass(self)
             neg.negate()
             result = to_text(neg)
-            if result[0] == "[":
+            if not neg.ranges:
+                # everything
+                return "[%s]" % self._empty_range[2:-1]
+            elif result[0] == "[":
                 return "[^%s]" % result[1:-1]
             elif result[0] == "\\":
                 # we may not need the escape
-                if result == "\\]":
-                    return "[^\\]]"
+                if result in ("\\]", "\\\\"):
+                    return "[^%s]" % result
                 elif result in dict_values(self._re_controls):
                     return "[^%s]" % result
                 else:
-- 
2.43.0


From 88f81260f9e2b2d1a2490711672d34b7958710a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 027/157] fix: local file paths are character strings in Python
 3

---
 pyslet/vfs.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index e92125c..cbed7ff 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -936,7 +936,7 @@ class OSFilePath(VirtualFilePath):
     string is consistent with the use of file:/// to reference the
     local file system."""
 
-    supports_unicode_filenames = os.path.supports_unicode_filenames
+    supports_unicode_filenames = not py2 or os.path.supports_unicode_filenames
     """Copied from os.path
 
     That means you won't know ahead of time whether paths are expected
@@ -971,13 +971,13 @@ class OSFilePath(VirtualFilePath):
     #: copied from os.extsep
     ext = os.extsep
 
-    drive_sep = ul(":") if os.path.supports_unicode_filenames else b":"
+    drive_sep = ul(":") if supports_unicode_filenames else b":"
     """always set to ':'
 
     Correctly set to either binary or character string depending on the
     setting of :attr:`supports_unicode_filenames`."""
 
-    empty = ul("") if os.path.supports_unicode_filenames else b""
+    empty = ul("") if supports_unicode_filenames else b""
     """Set to the empty string
 
     Uses either a binary or character string depending on the setting of
@@ -1071,7 +1071,7 @@ class OSFilePath(VirtualFilePath):
         os.remove(self.path)
 
     def listdir(self):
-        return map(lambda x: OSFilePath(x), os.listdir(self.path))
+        return list(map(lambda x: OSFilePath(x), os.listdir(self.path)))
 
     def chdir(self):
         os.chdir(self.path)
@@ -1086,7 +1086,8 @@ class OSFilePath(VirtualFilePath):
         def wrap(fname):
             return OSFilePath(fname)
         for dirpath, dirnames, filenames in os.walk(self.path):
-            yield wrap(dirpath), map(wrap, dirnames), map(wrap, filenames)
+            yield wrap(dirpath), list(map(wrap, dirnames)), \
+                list(map(wrap, filenames))
 
     def rmtree(self, ignore_errors=False):
         shutil.rmtree(self.path, ignore_errors)
-- 
2.43.0


From e13613257d0ef5bb799211ade538e287cb9ba818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 028/157] fix: memory files live in directories, missing files
 do not open, rmtree removes

---
 pyslet/vfs.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index cbed7ff..8a2898e 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -785,7 +785,7 @@ class MemFilePath(VirtualFilePath):
         # step 1: canonicalise the path
         cpath = self.realpath()
         with self._lock:
-            return cpath in self._fsdir
+            return cpath in self._fsdir or cpath.is_root()
 
     def isfile(self):
         """Returns True if this is a file in the file system."""
@@ -801,7 +801,7 @@ class MemFilePath(VirtualFilePath):
         cpath = self.realpath()
         with self._lock:
             item = self._fsdir.get(cpath, None)
-            return isinstance(item, MemDirectory)
+            return isinstance(item, MemDirectory) or cpath.is_root()
 
     def open(self, mode="r"):
         """Returns an open file-like object from this path."""
@@ -812,6 +812,10 @@ class MemFilePath(VirtualFilePath):
         with self._lock:
             item = self._fsdir.get(cpath, None)
             if item is None:
+                head, tail = cpath.split()
+                if mode[0] == 'r' or not head.isdir():
+                    raise IOError(errno.ENOENT, os.strerror(errno.ENOENT),
+                                  to_text(cpath))
                 item = MemFile(cpath)
                 self._fsdir[cpath] = item
             if isinstance(item, MemFile):
@@ -829,15 +833,9 @@ class MemFilePath(VirtualFilePath):
             cpath = head
             head, tail = cpath.split()
         with self._lock:
-            if head not in self._fsdir:
-                if head.is_root():
-                    # auto create the root if missing
-                    self._fsdir[head] = MemDirectory(head)
-                    if cpath == head:
-                        return
-                else:
-                    raise OSError("%s does not exist" % to_text(head))
-            if cpath in self._fsdir:
+            if not head.isdir():
+                raise OSError("%s is not a directory" % to_text(head))
+            if cpath.exists():
                 raise OSError("%s already exists" % to_text(cpath))
             self._fsdir[cpath] = MemDirectory(cpath)
 
@@ -846,8 +844,7 @@ class MemFilePath(VirtualFilePath):
         cpath = self.realpath()
         items = []
         with self._lock:
-            dir = self._fsdir.get(cpath, None)
-            if not isinstance(dir, MemDirectory):
+            if not cpath.isdir():
                 raise OSError("%s is not a directory" % to_text(cpath))
             if not cpath.is_root():
                 prefix = cpath.path + self.sep
@@ -885,8 +882,7 @@ class MemFilePath(VirtualFilePath):
         """Removes the tree rooted at this directory"""
         cpath = self.realpath()
         with self._lock:
-            dir = self._fsdir.get(cpath, None)
-            if not isinstance(dir, MemDirectory):
+            if not cpath.isdir():
                 if ignore_errors:
                     return
                 else:
@@ -918,6 +914,8 @@ class MemFilePath(VirtualFilePath):
             for fpath in files:
                 del self._fsdir[fpath]
             if not open_files:
+                if not cpath.is_root():
+                    dirs.append(cpath)
                 for dpath in dirs:
                     del self._fsdir[dpath]
 
-- 
2.43.0


From 05a90eaa4e6c77f403b2018577278fc6ffd90a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 029/157] fix: extensions are only taken from file names

---
 pyslet/vfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index 8a2898e..919b8af 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -305,8 +305,9 @@ class VirtualFilePath(SortableMixin):
         if self.is_dirlike():
             return self, self.path_str('')
         else:
+            start = self.path.rfind(self.sep) + 1
             pos = self.path.rfind(self.ext)
-            if pos >= 0:
+            if self.path[start:max(start, pos)].strip(self.ext):
                 return self.__class__(self.path[:pos]), \
                     to_text(self.path[pos:])
             else:
-- 
2.43.0


From dbd6f1ff78d6865bf976c6e3523b861ba827d41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 030/157] fix: the root of the memory file system is not a file

---
 pyslet/vfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index 919b8af..7955eb9 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -814,7 +814,8 @@ class MemFilePath(VirtualFilePath):
             item = self._fsdir.get(cpath, None)
             if item is None:
                 head, tail = cpath.split()
-                if mode[0] == 'r' or not head.isdir():
+                if (mode[0] == 'r' or cpath.is_root() or
+                        not head.isdir()):
                     raise IOError(errno.ENOENT, os.strerror(errno.ENOENT),
                                   to_text(cpath))
                 item = MemFile(cpath)
-- 
2.43.0


From 9e9fb6aa408da2e18c7131662a13a5af1d6229c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 031/157] fix: paths starting with two slashes are normalised

---
 pyslet/vfs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index 7955eb9..49c2761 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -382,7 +382,8 @@ class VirtualFilePath(SortableMixin):
             if not component:
                 # empty path component removed except start and
                 # special case of all empty components
-                if i == 1 and not components[0]:
+                if i == 1 and not components[0] and (
+                        self.supports_unc or len(components) == 2):
                     break
                 elif i:
                     del components[i]
-- 
2.43.0


From aebb4b9df0509327612400520c35b22202ec5dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 032/157] fix: GzipEncoder keeps encoded data that does not fit
 the read

---
 pyslet/http/messages.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 1f1b0f0..1f4dbb0 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -45,12 +45,12 @@ class GzipEncoder(io.RawIOBase):
             if self.buffstr:
                 # we have some buffered data left over
                 if len(self.buffstr) > nbytes:
-                    self.buffstr = data[nbytes:]
-                    b[:] = data[:nbytes]
+                    b[:] = self.buffstr[:nbytes]
+                    self.buffstr = self.buffstr[nbytes:]
                 else:
                     nbytes = len(self.buffstr)
                     b[:nbytes] = self.buffstr
-                self.buffstr = None
+                    self.buffstr = None
                 return nbytes
             elif self.src is not None:
                 data = self.src.read(nbytes)
-- 
2.43.0


From ab887f10a66ed673b530e73ee3f39fc8076386c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 033/157] fix: send_body returns bytes and does not end before
 the promised Content-Length

---
 pyslet/http/messages.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 1f4dbb0..16f9fdf 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -671,13 +671,16 @@ class Message(PEP8Compatibility, object):
                         self.transferPos += len(data)
                         self.body_started = True
                         return data
-                    else:
+                    elif self.transferlength is None:
                         # end of the message body (read forever mode)
                         self.transferDone = True
-                        return ''
+                        return b''
+                    else:
+                        # we promised more in the Content-Length header
+                        raise HTTPException("Too little data in entity body")
                 else:
                     self.transferDone = True
-                    return ''
+                    return b''
 
     START_MODE = 1
     HEADER_MODE = 2
-- 
2.43.0


From 7152928194806af097db7bd0816394e714412a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 034/157] fix: receiving bodies ended by close, and blocked
 final flush of chunked bodies

---
 pyslet/http/messages.py | 50 +++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 16f9fdf..419f262 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -720,6 +720,7 @@ class Message(PEP8Compatibility, object):
             self.tboundary_match = None
             self.transferPos = 0
             self.transferDone = False
+            self.recv_buffer = None
 
     #: recv_mode constant for a set of header lines terminated by CRLF,
     #: followed by a blank line.
@@ -810,7 +811,8 @@ class Message(PEP8Compatibility, object):
                     self.transfermode = self.DATA_MODE
                 else:
                     self.transferlength = self.transferPos = 0
-                    self.transfermode = None
+                    self.transferDone = True
+                    self._recv_flush()
                 self.handle_headers()
             elif self.transfermode == self.CHUNK_HEAD_MODE:
                 # Read the chunk size
@@ -869,8 +871,12 @@ class Message(PEP8Compatibility, object):
                         # we're receiving all data
                         self.recv_buffer = data
                     self._recv_buffered()
+                elif self.transferchunked or self.transferlength is not None:
+                    raise ProtocolError("Unexpected end of message body")
                 else:
-                    self.transfer_mode = None
+                    # the connection was closed: that's all the data
+                    self.transferDone = True
+                    self._recv_flush()
             elif self.transfermode == self.BLOCKED_MODE:
                 self._recv_buffered()
             elif self.transfermode == self.CHUNK_END_MODE:
@@ -881,21 +887,14 @@ class Message(PEP8Compatibility, object):
             elif self.transfermode == self.CHUNK_TRAILER_MODE:
                 for line in data:
                     self._recv_header(line)
-                try:
-                    self.transferbody.flush()
-                    self.transfermode = None
-                except IOError as e:
-                    if io_blocked(e):
-                        self.transfermode = self.BLOCKED_MODE
-                    else:
-                        raise
+                self.transferDone = True
+                self._recv_flush()
             else:
                 raise HTTPException(
-                    "recv_line when in unknown mode: %i" % self.transfermode)
+                    "recv_line when in unknown mode: %s" %
+                    repr(self.transfermode))
             if self.transfermode is None:
                 logging.debug("Message complete")
-                if self.transferbody:
-                    self.transferbody.flush()
                 self.handle_message()
 
     def recv_start(self, start_line):
@@ -953,6 +952,9 @@ class Message(PEP8Compatibility, object):
                 self.recv_buffer = None
         if self.recv_buffer:
             self.transfermode = self.BLOCKED_MODE
+        elif self.transferDone:
+            # just waiting for the final flush
+            self._recv_flush()
         elif self.transferchunked:
             if self.transferPos >= self.transferlength:
                 self.transfermode = self.CHUNK_END_MODE
@@ -963,19 +965,23 @@ class Message(PEP8Compatibility, object):
             self.transfermode = self.DATA_MODE
         elif self.transferPos >= self.transferlength:
             # not chunked, defined message body length
-            # we need a flushing mode here
-            try:
-                self.transferbody.flush()
-                self.transfermode = None
-            except IOError as e:
-                if io_blocked(e):
-                    self.transfermode = self.BLOCKED_MODE
-                else:
-                    raise
+            self.transferDone = True
+            self._recv_flush()
         else:
             # not chunked, still reading
             self.transfermode = self.DATA_MODE
 
+    def _recv_flush(self):
+        # flushes the body when all the data has been received
+        try:
+            self.transferbody.flush()
+            self.transfermode = None
+        except IOError as e:
+            if io_blocked(e):
+                self.transfermode = self.BLOCKED_MODE
+            else:
+                raise
+
     def handle_headers(self):
         """Hook for processing the message headers
 
-- 
2.43.0


From b638ff03dcf6f2d4bdd3c1c0e6b4dee13a1d00ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 035/157] fix: malformed Content-Length, Status-Line or request
 Transfer-Encoding refused

---
 pyslet/http/messages.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 419f262..6256c07 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1309,7 +1309,11 @@ class Message(PEP8Compatibility, object):
         If no Content-Length header was present None is returned."""
         field_value = self.get_header("Content-Length")
         if field_value is not None:
-            return int(field_value.strip())
+            field_value = field_value.strip()
+            if not grammar.is_digits(field_value):
+                raise ProtocolError("Badly formed Content-Length: %s" %
+                                    repr(field_value))
+            return int(field_value)
         else:
             return None
 
@@ -1625,6 +1629,10 @@ class Request(Message):
             # if we are left with transferlength == None and no chunked
             # encoding it means there is no message body as requests
             # cannot hang up to indicate the end of the message
+            encoding = self.get_transfer_encoding()
+            if encoding and encoding[-1].token != "identity":
+                raise ProtocolError("Transfer-Encoding of request must end "
+                                    "with chunked")
             self.transferlength = 0
 
     def get_start(self):
@@ -1912,6 +1920,8 @@ class Response(Message):
         # Read the status line
         pstatus = params.ParameterParser(line[:-2], ignore_sp=False)
         self.protocol = pstatus.parse_production(pstatus.require_http_version)
+        if self.protocol is None:
+            raise ProtocolError("Badly formed Status-line: %s" % repr(line))
         pstatus.parse_sp()
         if pstatus.is_integer():
             self.status = pstatus.parse_integer()
-- 
2.43.0


From 8135ec06d3dd324bcafd533771393c33f6e88ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 036/157] fix: gzip transfer-coding applied when it is the only
 coding

---
 pyslet/http/messages.py | 53 ++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 6256c07..cef35d6 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -109,6 +109,7 @@ class GzipDecoder(io.RawIOBase):
                 self.buffstr = self.buffstr[n:]
             else:
                 self.buffstr = None
+        self.dst.flush()
 
     def write(self, zdata):
         wbytes = None
@@ -572,7 +573,7 @@ class Message(PEP8Compatibility, object):
             if encoding is not None:
                 self.set_transfer_encoding(None)
                 encoding = None
-        elif encoding is not None:
+        elif encoding:
             if content_length is not None:
                 raise HTTPException("Content-Length not allowed with "
                                     "Transfer-Encoding")
@@ -582,19 +583,18 @@ class Message(PEP8Compatibility, object):
                 # read until end of connection
                 self.transferchunked = False
             self.transferlength = None
-            if len(encoding) > 1:
-                for enc in encoding:
-                    if enc.token == "gzip":
-                        # wrap the body in a gzip compression wrapper
-                        self.transferbody = GzipEncoder(self.transferbody)
-                    elif enc.token == "identity":
-                        continue
-                    elif enc.token == "chunked":
-                        # always the last encoding
-                        break
-                    else:
-                        raise NotImplementedError(
-                            "Unsupported transfer encoding %s" % enc.token)
+            for enc in encoding:
+                if enc.token == "gzip":
+                    # wrap the body in a gzip compression wrapper
+                    self.transferbody = GzipEncoder(self.transferbody)
+                elif enc.token == "identity":
+                    continue
+                elif enc.token == "chunked":
+                    # always the last encoding
+                    break
+                else:
+                    raise NotImplementedError(
+                        "Unsupported transfer encoding %s" % enc.token)
             # overrides any Content-Length setting
             return
         # If there is a Content-Length header
@@ -1031,25 +1031,24 @@ class Message(PEP8Compatibility, object):
         # If there is an encoding other than 'identity' then we're using
         # chunked
         encoding = self.get_transfer_encoding()
-        if encoding is not None and not (
+        if encoding and not (
                 len(encoding) == 1 and encoding[0].token == "identity"):
             if encoding[-1].token == "chunked":
                 self.transferchunked = True
+                encoding = encoding[:-1]
             else:
                 self.transferchunked = False
             self.transferlength = None
-            if len(encoding) > 1:
-                encoding = encoding[:-1]
-                encoding.reverse()
-                for enc in encoding:
-                    if enc.token == "gzip":
-                        # wrap the body in a gzip decoding wrapper
-                        self.transferbody = GzipDecoder(self.transferbody)
-                    elif enc.token == "identity":
-                        continue
-                    else:
-                        raise NotImplementedError(
-                            "Unsupported transfer encoding %s" % enc.token)
+            encoding.reverse()
+            for enc in encoding:
+                if enc.token == "gzip":
+                    # wrap the body in a gzip decoding wrapper
+                    self.transferbody = GzipDecoder(self.transferbody)
+                elif enc.token == "identity":
+                    continue
+                else:
+                    raise NotImplementedError(
+                        "Unsupported transfer encoding %s" % enc.token)
             # overrides any Content-Length setting
             return
         # If there is a Content-Length header
-- 
2.43.0


From 581b3ee4b5735fbdcc8dae5a0e87838300aee95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:56 +0000
Subject: [PATCH 037/157] fix: ChunkedReader copes with short reads and reports
 malformed chunks

---
 pyslet/http/messages.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index cef35d6..3035d9b 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -151,9 +151,13 @@ class ChunkedReader(io.RawIOBase):
     def _read_chunksize(self):
         # trailing CRLF needs to be read:
         if self.chunk_left == 0:
-            self.src.readline()
-        p = params.ParameterParser(self.src.readline().strip())
-        self.chunk_left = int(p.parse_token(), 16)
+            if self.src.readline().strip():
+                raise IOError("chunk-data termination error")
+        try:
+            chunk = params.Chunk.from_str(self.src.readline().strip())
+        except grammar.BadSyntax as e:
+            raise IOError("Badly formed chunk: %s" % str(e))
+        self.chunk_left = chunk.size
         if self.chunk_left == 0:
             self.eof = True
             # read the trailing headers and CRLF
@@ -180,7 +184,11 @@ class ChunkedReader(io.RawIOBase):
         nbytes = len(b)
         if nbytes > self.chunk_left:
             nbytes = self.chunk_left
-        b[:nbytes] = self.src.read(nbytes)
+        data = self.src.read(nbytes)
+        if nbytes and not data:
+            raise IOError("Unexpected end of chunked data")
+        nbytes = len(data)
+        b[:nbytes] = data
         self.chunk_left -= nbytes
         return nbytes
 
-- 
2.43.0


From bac6da3c8530cf49094e8b6cd3da208f7a117eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:56 +0000
Subject: [PATCH 038/157] fix: WSGIInputWrapper readinto, iteration and seeking
 forward

---
 pyslet/http/messages.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 3035d9b..ed954ce 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -253,7 +253,7 @@ class WSGIInputWrapper(io.RawIOBase):
         the input_stream itself."""
         if self.closed:
             raise IOError("WSGIInputWrapper was closed")
-        if n == -1:
+        if n is None or n < 0:
             return self.readall()
         data = b''
         if n and self.pos < self.buffSize:
@@ -296,7 +296,7 @@ class WSGIInputWrapper(io.RawIOBase):
                 "WSGIInputWrapper: attempt to set the stream position "
                 "to a negative value")
         if new_pos == self.pos:
-            return
+            return new_pos
         if new_pos <= self.buffSize:
             self.buffer.seek(new_pos)
         else:
@@ -308,10 +308,9 @@ class WSGIInputWrapper(io.RawIOBase):
                 data = self.read(n)
                 if len(data) == 0:
                     break
-                else:
-                    self.pos += len(data)
         # new_pos may be beyond the end of the input stream, that's OK
         self.pos = new_pos
+        return new_pos
 
     def seekable(self):
         """A bit cheeky here, we are initially seekable."""
@@ -343,12 +342,8 @@ class WSGIInputWrapper(io.RawIOBase):
         return b''.join(result)
 
     def readinto(self, b):
-        n = len(b)
-        data = self.read(n)
-        i = 0
-        for d in data:
-            b[i] = ord(d)
-            i = i + 1
+        data = self.read(len(b))
+        b[:len(data)] = data
         return len(data)
 
     def readline(self, limit=-1):
@@ -400,6 +395,8 @@ class WSGIInputWrapper(io.RawIOBase):
             line = self.readline()
             if line:
                 yield line
+            else:
+                break
 
 
 class Message(PEP8Compatibility, object):
-- 
2.43.0


From 7b4a24e43a645d3ab7027f9ddc09da99d602bc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:56 +0000
Subject: [PATCH 039/157] fix: removing Authorization, Upgrade, Location;
 formatting token lists

---
 pyslet/http/messages.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index ed954ce..360f717 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1208,7 +1208,10 @@ class Message(PEP8Compatibility, object):
 
         credentials
                 a :py:class:`~pyslet.http.auth.Credentials` instance"""
-        self.set_header("Authorization", str(credentials))
+        if credentials is None:
+            self.set_header("Authorization", None)
+        else:
+            self.set_header("Authorization", str(credentials))
 
     def get_cache_control(self):
         """Returns an :py:class:`CacheControl` instance or None if no
@@ -1542,7 +1545,10 @@ class Message(PEP8Compatibility, object):
                 connection.add("upgrade")
                 self.set_connection(connection)
         else:
-            self.set_header("Connection", None)
+            self.set_header("Upgrade", None)
+            connection = self.get_connection()
+            connection.discard("upgrade")
+            self.set_connection(connection)
 
     def get_host(self):
         return self.get_header("Host")
@@ -2024,16 +2030,16 @@ class Response(Message):
             a :py:class:`pyslet.rfc2396.URI` instance or a string
             from which one can be parsed.  If None, the Location
             header is removed."""
+        if location is None:
+            self.set_header("Location", None)
+            return
         if isinstance(location, str):
             location = uri.URI.from_octets(location)
         if not isinstance(location, uri.URI):
             raise TypeError
         if not location.is_absolute():
             raise HTTPException("Location header must be an absolute URI")
-        if location is None:
-            self.set_header("Location", None)
-        else:
-            self.set_header("Location", str(location))
+        self.set_header("Location", str(location))
 
     def get_www_authenticate(self):
         """Returns a list of :py:class:`~pyslet.rfc2617.Challenge`
@@ -2388,7 +2394,7 @@ class AcceptTokenList(params.Parameter):
         return al
 
     def to_bytes(self):
-        return b', '.join(str(i) for i in self._items)
+        return b', '.join(i.to_bytes() for i in self._items)
 
     def __len__(self):
         return len(self._items)
-- 
2.43.0


From 05d332f8ee71ff96e53e16dbec972193ba56649c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 040/157] fix: HTTP responses received before the request has
 been sent

---
 pyslet/http/client.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 3db3ac5..a7b7f23 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1918,16 +1918,18 @@ class ClientRequest(messages.Request):
                 # finished with us
                 if self.status >= 300:
                     # Some type of error condition....
-                    if isinstance(self.send_body(), str):
+                    if self.send_body() != b'':
                         # There was more data to send in the request but we
                         # don't plan to send it so we have to hang up!
                         self.connection.request_disconnect()
-                    # else, we were finished anyway... the connection will
-                    # discover this itself
-                elif self.response >= 200:
+                    else:
+                        # we were finished anyway... the connection will
+                        # discover this itself
+                        self.connection.continue_sending(self)
+                elif self.status >= 200:
                     # For 2xx result codes we let the connection finish
                     # spooling and disconnect from us when it is done
-                    pass
+                    self.connection.continue_sending(self)
                 else:
                     # A bad information response (with body) or a bad status
                     # code
-- 
2.43.0


From 39758d174219188a9517563a154cd7f338f3d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 041/157] fix: HTTP requests are not finished by an
 informational response

---
 pyslet/http/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index a7b7f23..0282fe5 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1901,6 +1901,9 @@ class ClientRequest(messages.Request):
                 response, we may be waiting for the connection to call
                 our send_body method.  We need to tell it not to
                 wait any more!"""
+                if self.status != 101:
+                    # the final response has yet to be received
+                    self.status = 0
                 if self.connection:
                     if (self.response.status == 101 and
                             "upgrade" in self.get_connection()):
-- 
2.43.0


From b399d9be4075662eaa9638a9e68913f667ed5544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 042/157] fix: truncated HTTP responses are reported as errors

---
 pyslet/http/client.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 0282fe5..01f7f1f 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1867,7 +1867,7 @@ class ClientRequest(messages.Request):
         # called when the response has been received
         self.status = self.response.status
         self.error = err
-        if self.status is None:
+        if self.status is None or err is not None:
             logging.error("Error receiving response, %s", str(self.error))
             self.status = 0
             self.finished()
@@ -2030,8 +2030,14 @@ class ClientResponse(messages.Response):
         may be expected behaviour and *err* may be None.
 
         We pass this information on to the request."""
-        if err is not None:
-            self.reason = str(err)
+        if err is None:
+            if self.recv_mode() == self.RECV_ALL:
+                # the end of the data
+                self.recv(b'')
+                return
+            err = messages.ProtocolError(
+                "Connection closed before the end of the response")
+        self.reason = str(err)
         self.request.response_finished(err)
 
     def finished(self):
-- 
2.43.0


From 389850cddab03682f6e42d2a5a4345cf0e3b4868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 043/157] fix: pipelined HTTP responses received together,
 unexpected data

---
 pyslet/http/client.py | 82 +++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 34 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 01f7f1f..df3703e 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -179,6 +179,8 @@ class Connection(SortableMixin):
         self.sent_bytes = 0
         self.recv_buffer = []
         self.recv_buffer_size = 0
+        # True if recv_buffer may satisfy the next (pipelined) response
+        self.recv_pending = False
 
     def thread_target_key(self):
         return (self.thread_id, self.scheme, self.host, self.port)
@@ -360,12 +362,18 @@ class Connection(SortableMixin):
                                 self.response = self.response_queue[0]
                                 self.response_queue = self.response_queue[1:]
                                 self.response.start_receiving()
+                                self.recv_pending = True
                             elif self.response:
                                 self.response = None
                                 if self.request_mode == self.CLOSE_WAIT:
                                     # no response and waiting to close the
                                     # connection
                                     close_connection = True
+                                if b''.join(self.recv_buffer).strip():
+                                    logging.error(
+                                        "%s: closing connection after "
+                                        "unexpected data", self.host)
+                                    close_connection = True
                             if close_connection:
                                 self.close()
                         # Any data received on the connection could
@@ -814,40 +822,45 @@ class Connection(SortableMixin):
         #   We ask the response what it is expecting and try and
         #   satisfy that, we return True when the response has been
         #   received completely, False otherwise"""
-        err = None
-        try:
-            data = self.socket.recv(io.DEFAULT_BUFFER_SIZE)
-            self.last_rw = time.time()
-        except ssl.SSLError as err:
-            if err.args[0] == ssl.SSL_ERROR_WANT_READ:
-                # we're blocked on recv
-                return (False, True, False)
-            elif err.args[0] == ssl.SSL_ERROR_WANT_WRITE:
-                # we're blocked on send, really this can happen!
-                return (False, False, True)
-            else:
-                # we're going to swallow this error, log it
-                logging.error("socket.recv raised %s", str(err))
-                data = None
-        except IOError as err:
-            if io_blocked(err):
-                # we're blocked on recv
-                return (False, True, False)
-            # We can't truly tell if the server hung-up except by
-            # getting an error here so this error could be fairly benign.
-            logging.warning("socket.recv raised %s", str(err))
-            data = None
-        logging.debug("Reading from %s: \n%s", self.host, repr(data))
-        if data:
-            nbytes = len(data)
-            self.recv_buffer.append(data)
-            self.recv_buffer_size += nbytes
-            logging.debug("Read buffer size: %i" % self.recv_buffer_size)
+        if self.recv_pending and self.recv_buffer:
+            # start with the data read along with the previous response
+            self.recv_pending = False
         else:
-            logging.debug("%s: closing connection after recv returned no "
-                          "data on ready to read socket", self.host)
-            self.close()
-            return (True, False, False)
+            self.recv_pending = False
+            try:
+                data = self.socket.recv(io.DEFAULT_BUFFER_SIZE)
+                self.last_rw = time.time()
+            except ssl.SSLError as err:
+                if err.args[0] == ssl.SSL_ERROR_WANT_READ:
+                    # we're blocked on recv
+                    return (False, True, False)
+                elif err.args[0] == ssl.SSL_ERROR_WANT_WRITE:
+                    # we're blocked on send, really this can happen!
+                    return (False, False, True)
+                else:
+                    # we're going to swallow this error, log it
+                    logging.error("socket.recv raised %s", str(err))
+                    data = None
+            except IOError as err:
+                if io_blocked(err):
+                    # we're blocked on recv
+                    return (False, True, False)
+                # We can't truly tell if the server hung-up except by
+                # getting an error here so this error could be fairly benign.
+                logging.warning("socket.recv raised %s", str(err))
+                data = None
+            logging.debug("Reading from %s: \n%s", self.host, repr(data))
+            if data:
+                nbytes = len(data)
+                self.recv_buffer.append(data)
+                self.recv_buffer_size += nbytes
+                logging.debug("Read buffer size: %i" % self.recv_buffer_size)
+            else:
+                logging.debug("%s: closing connection after recv returned no "
+                              "data on ready to read socket", self.host)
+                self.close()
+                return (True, False, False)
+        err = None
         # Now loop until we can't satisfy the response anymore (or the response
         # is done)
         while self.response is not None:
@@ -2034,7 +2047,8 @@ class ClientResponse(messages.Response):
             if self.recv_mode() == self.RECV_ALL:
                 # the end of the data
                 self.recv(b'')
-                return
+                if self.recv_mode() is None:
+                    return
             err = messages.ProtocolError(
                 "Connection closed before the end of the response")
         self.reason = str(err)
-- 
2.43.0


From f1014939ddd3945a68cf2be7590d51ff283bd704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 044/157] fix: HTTP client waits for at most the given timeout

---
 pyslet/http/client.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index df3703e..fe6b2f1 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -398,7 +398,8 @@ class Connection(SortableMixin):
                     break
                 self.manager._deactivate_connection(self)
                 break
-        if (rbusy or wbusy) and (tbusy is None or tbusy > self.timeout):
+        if (rbusy or wbusy) and self.timeout is not None and (
+                tbusy is None or tbusy > self.timeout):
             # waiting for i/o, make sure the timeout is capped
             tbusy = self.timeout
         if rbusy:
@@ -1456,11 +1457,11 @@ class Client(PEP8Compatibility, object):
             except Exception as err:
                 c.close(err)
                 pass
+        if timeout is not None:
+            if wait_time is None or timeout < wait_time:
+                if readers or writers or wait_time is not None:
+                    wait_time = timeout
         if readers or writers:
-            if timeout is not None:
-                if wait_time is not None:
-                    if timeout < wait_time:
-                        wait_time = timeout
             try:
                 logging.debug("thread_task waiting for select: "
                               "readers=%s, writers=%s, timeout=%s",
-- 
2.43.0


From 5472e363ba9719149677aa9033e5065c0b73542c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 045/157] fix: HTTP client connection failures reported

---
 pyslet/http/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index fe6b2f1..f12b763 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -806,7 +806,7 @@ class Connection(SortableMixin):
                 # requests!
                 self.request.disconnect(self.sent_bytes)
                 self.request = None
-                self.request_mode == self.CLOSE_WAIT
+                self.request_mode = self.CLOSE_WAIT
                 self.send_buffer = []
             elif nbytes < len(data):
                 # Some of the data went:
@@ -971,6 +971,7 @@ class Connection(SortableMixin):
             self.socket = None
             self.socket_file = None
             self.socketSelect = select.select
+        snew = None
         try:
             for target in self.manager.dnslookup(self.host, self.port):
                 family, socktype, protocol, canonname, address = target
@@ -984,9 +985,8 @@ class Connection(SortableMixin):
                     continue
                 break
         except socket.gaierror as e:
-            snew = None
             raise messages.HTTPException(
-                "failed to connect to %s (%s)" % (self.host, e[1]))
+                "failed to connect to %s (%s)" % (self.host, str(e)))
         if not snew:
             raise messages.HTTPException("failed to connect to %s" % self.host)
         else:
-- 
2.43.0


From cedec064c5716c5642c442b7a40167c717782a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 046/157] fix: HTTP connection pool: killed connections,
 waiting threads and close

---
 pyslet/http/client.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index f12b763..8ce4521 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1268,9 +1268,9 @@ class Client(PEP8Compatibility, object):
             thread_id, request.scheme, request.hostname, request.port)
         target = (request.scheme, request.hostname, request.port)
         with self.managerLock:
-            if self.closing.is_set():
-                raise ConnectionClosed
             while True:
+                if self.closing.is_set():
+                    raise ConnectionClosed
                 # Step 1: search for an active connection to the same
                 # target already bound to our thread
                 if thread_target in self.cActiveThreadTargets:
@@ -1305,14 +1305,17 @@ class Client(PEP8Compatibility, object):
                             "non-blocking call to queue_request failed to "
                             "obtain an HTTP connection")
                         raise RequestManagerBusy
-                    elif timeout is not None and now > start + timeout:
+                    elif timeout is not None and now >= start + timeout:
                         logging.warning(
                             "queue_request timed out while waiting for "
                             "an HTTP connection")
                         raise RequestManagerBusy
                     logging.debug(
                         "queue_request forced to wait for an HTTP connection")
-                    self.managerLock.wait(timeout)
+                    if timeout is None:
+                        self.managerLock.wait()
+                    else:
+                        self.managerLock.wait(start + timeout - now)
                     logging.debug(
                         "queue_request resuming search for an HTTP connection")
             # add this request to the queue on the connection
@@ -1356,7 +1359,8 @@ class Client(PEP8Compatibility, object):
         target = connection.target_key()
         thread_target = connection.thread_target_key()
         with self.managerLock:
-            if thread_target in self.cActiveThreadTargets:
+            if self.cActiveThreadTargets.get(
+                    thread_target, None) is connection:
                 del self.cActiveThreadTargets[thread_target]
                 self.cIdleList[connection.id] = connection
                 if target in self.cIdleTargets:
@@ -1381,8 +1385,11 @@ class Client(PEP8Compatibility, object):
         # implementation is similar to deactivation.
         thread_target = connection.thread_target_key()
         with self.managerLock:
-            if thread_target in self.cActiveThreadTargets:
+            if self.cActiveThreadTargets.get(
+                    thread_target, None) is connection:
                 del self.cActiveThreadTargets[thread_target]
+                # tell any threads waiting for a connection
+                self.managerLock.notify()
             if connection.thread_id in self.cActiveThreads:
                 if connection.id in self.cActiveThreads[connection.thread_id]:
                     del self.cActiveThreads[
@@ -1561,6 +1568,8 @@ class Client(PEP8Compatibility, object):
         while True:
             with self.managerLock:
                 self.closing.set()
+                # wake any threads waiting for a connection
+                self.managerLock.notify_all()
                 if len(self.cActiveThreadTargets) + len(self.cIdleList) == 0:
                     break
             self.active_cleanup(0)
-- 
2.43.0


From 858bb4eb1b053efe079f323a186be4a70a12a950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 047/157] fix: HTTP 401 response with several credentials or
 challenges

---
 pyslet/http/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 8ce4521..3a69b60 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1598,6 +1598,7 @@ class Client(PEP8Compatibility, object):
             for i in range3(len(self.credentials)):
                 if self.credentials[i] is credentials:
                     del self.credentials[i]
+                    break
 
     def dnslookup(self, host, port):
         """Given a host name (string) and a port number performs a DNS lookup
@@ -2007,6 +2008,7 @@ class ClientRequest(messages.Request):
                 if self.tried_credentials:
                     self.set_authorization(self.tried_credentials)
                     self.resend()  # to the same URL
+                    break
 
 
 class ClientResponse(messages.Response):
-- 
2.43.0


From 737731f81058a06ac52507829534469fa3cf4d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 048/157] fix: HTTP redirects to other schemes are not followed

---
 pyslet/http/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 3a69b60..a1d5602 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1999,7 +1999,8 @@ class ClientRequest(messages.Request):
                 if not location.host:
                     # This is an error but a common one (thanks IIS!)
                     location = location.resolve(self.url)
-                self.resend(location)
+                if isinstance(location, params.HTTPURL):
+                    self.resend(location)
         elif self.status == 401:
             challenges = self.response.get_www_authenticate()
             for c in challenges:
-- 
2.43.0


From 00c7ad1bbe1de7fb49286e985246bad94efdab68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 049/157] fix: HTTP server keeps data read ahead for pipelined
 requests

---
 pyslet/http/server.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 9f94287..7e1c484 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -278,6 +278,8 @@ class Connection(socketserver.BaseRequestHandler):
         # these pipes are for the entity body, not the message body! in
         # otherwords, they deal with data after transfer encodings have
         # been removed
+        # data may be read ahead from the following (pipelined) request
+        buffstr = b''
         try:
             while not self.finished.is_set():
                 logging.debug("handle_request: reading request...")
@@ -285,7 +287,6 @@ class Connection(socketserver.BaseRequestHandler):
                 rflag = CascadingEvent()
                 request.recv_pipe.set_rflag(rflag)
                 request.start_receiving()
-                buffstr = b''
                 timeout = self.server.idle_timeout
                 send_continue = False
                 send_continue_start = 0
@@ -350,7 +351,7 @@ class Connection(socketserver.BaseRequestHandler):
                                 request.recv(data)
                             elif buffstr:
                                 request.recv(buffstr)
-                                buffstr = ''
+                                buffstr = b''
                             else:
                                 # read some data from the socket
                                 data = read_socket(self.request, mode,
@@ -365,7 +366,7 @@ class Connection(socketserver.BaseRequestHandler):
                             # unlimited read from the socket
                             if buffstr:
                                 request.recv(buffstr)
-                                buffstr = ''
+                                buffstr = b''
                             else:
                                 data = read_socket(self.request,
                                                    io.DEFAULT_BUFFER_SIZE,
-- 
2.43.0


From 2814512a0a3d72e7a497bb28378ef39970e82a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 050/157] fix: HTTP server reports truncated and oversized
 requests

---
 pyslet/http/server.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 7e1c484..c721e97 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -112,7 +112,7 @@ def split_socket(s, buffstr=b'', timeout=None,
             line = bytes(buffer[rpos:end + 2])
             if len(line) > maxline:
                 raise messages.HTTPException(
-                    "max line length exceeded: %s..." + line[0:64])
+                    "max line length exceeded: %s..." % repr(line[0:64]))
             lines.append(line)
             rpos = end + 2
             if line == grammar.CRLF:
@@ -172,8 +172,8 @@ def split_socket1(s, buffstr=b'', timeout=None, maxline=MAX_HEADER_LINE):
             # not found, fill the buffer with data
             pass
         if len(buffer) >= maxline:
-            raise HTTPException("max line length exceeded: %s..." +
-                                buffer[0:64])
+            raise messages.ProtocolError(
+                "max line length exceeded: %s..." % repr(buffer[0:64]))
         data = read_socket(s, maxline - len(buffer), timeout=timeout)
         if not data:
             return None, bytes(buffer)
@@ -335,7 +335,8 @@ class Connection(socketserver.BaseRequestHandler):
                             if line is None:
                                 # hang up
                                 if request.method:
-                                    raise ProtocolError("Unexpected EOM")
+                                    raise messages.ProtocolError(
+                                        "Unexpected EOM")
                                 else:
                                     # client hung up
                                     logging.debug("client hang up detected")
@@ -359,7 +360,7 @@ class Connection(socketserver.BaseRequestHandler):
                                 if data is None:
                                     # client hang up when we expected
                                     # more data
-                                    raise ProtocolError(
+                                    raise messages.ProtocolError(
                                         "Unexpected EOM in data")
                                 request.recv(data)
                         elif mode == request.RECV_ALL:
-- 
2.43.0


From 50bfb4d4679bae294c635cfd5477a3f39e3704b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:56 +0000
Subject: [PATCH 051/157] fix: malformed chunk header is a protocol error

---
 pyslet/http/messages.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 360f717..045c103 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -821,7 +821,10 @@ class Message(PEP8Compatibility, object):
                 self.handle_headers()
             elif self.transfermode == self.CHUNK_HEAD_MODE:
                 # Read the chunk size
-                chunk = params.Chunk.from_str(data[:-2])
+                try:
+                    chunk = params.Chunk.from_str(data[:-2])
+                except grammar.BadSyntax as e:
+                    raise ProtocolError("Badly formed chunk: %s" % str(e))
                 self.transferlength = chunk.size
                 self.transferPos = 0
                 if self.transferlength == 0:
-- 
2.43.0


From 55551568a1141ba1d945e1910bbcdfd66c1a5f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:56 +0000
Subject: [PATCH 052/157] fix: HTTP server honours Connection: close and
 HTTP/1.0 requests

---
 pyslet/http/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index c721e97..389d692 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -764,6 +764,7 @@ class ServerRequest(messages.Request):
 
     def handle_headers(self):
         """Create a wsgi environment and start a processing thread"""
+        super(ServerRequest, self).handle_headers()
         # normalise the request URI to remove scheme and authority
         # ensures Host: is set correctly
         self.extract_authority()
-- 
2.43.0


From 0656295f7230a61a539385a1e8dba97958f45743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:56 +0000
Subject: [PATCH 053/157] fix: WSGI environment of the HTTP server, repeated
 headers

---
 pyslet/http/server.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 389d692..fcd70ae 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -780,10 +780,10 @@ class ServerRequest(messages.Request):
                 'REQUEST_METHOD': self.method,
                 'SCRIPT_NAME': '',
                 'PATH_INFO': path_info,
-                'QUERY_STRING': url.query,
+                'QUERY_STRING': '',
                 'SERVER_NAME': self.connection.server.host,
                 'SERVER_PORT': str(self.connection.server.port),
-                'SERVER_PROTCOL': str(self.protocol),
+                'SERVER_PROTOCOL': str(self.protocol),
                 'REMOTE_ADDR': str(self.connection.client_address),
                 'wsgi.version': (1, 0),
                 'wsgi.url_scheme':
@@ -797,14 +797,18 @@ class ServerRequest(messages.Request):
                 environ['QUERY_STRING'] = url.query
             content_type = self.get_header('Content-Type')
             if content_type is not None:
-                environ['CONTENT_TYPE'] = content_type
+                environ['CONTENT_TYPE'] = content_type.decode('iso-8859-1')
             content_length = self.get_header('Content-Length')
             if content_length is not None:
-                environ['CONTENT_LENGTH'] = content_length
+                environ['CONTENT_LENGTH'] = content_length.decode(
+                    'iso-8859-1')
             for hname, hvalue in dict_items(self.headers):
+                if hname == b'cookie':
+                    hvalue = b"; ".join(hvalue[1:])
+                else:
+                    hvalue = b", ".join(hvalue[1:])
                 hname = hname.replace(b"-", b"_").decode('iso-8859-1')
-                environ['HTTP_' + hname.upper()] = hvalue[1].decode(
-                    'iso-8859-1')
+                environ['HTTP_' + hname.upper()] = hvalue.decode('iso-8859-1')
         # now launch the application in a separate thread
         response = ServerResponse(
             request=self, protocol=self.connection.server.protocol)
@@ -918,7 +922,9 @@ class ServerResponse(messages.Response):
             pstatus.parse_sp()
             self.reason = pstatus.parse_remainder().decode('iso-8859-1')
             for name, value in response_headers:
-                self.set_header(name, value)
+                self.set_header(name, None)
+            for name, value in response_headers:
+                self.set_header(name, value, append_mode=True)
         return self.write_response
 
     def write_response(self, body_data):
-- 
2.43.0


From b4e66a74691b50198ef5494a90669b2aba9cb600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:56 +0000
Subject: [PATCH 054/157] fix: HTTP server authorities ignore case, KeyError in
 app is not a bad host

---
 pyslet/http/server.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index fcd70ae..57c84f2 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -714,22 +714,22 @@ class Server(socketserver.ThreadingMixIn, socketserver.TCPServer):
         """Launches a WSGI application
 
         The default implementation returns a 404 error"""
+        authority = environ.get('HTTP_HOST', self.default_authority)
         with self.lock:
-            authority = environ.get('HTTP_HOST', self.default_authority)
             try:
-                app = self.authorities[authority]
-                if app is None:
-                    # this implementation mainly for testing, we want to read
-                    # all the data from the input string
-                    response_headers = []
-                    start_response("404 Page Not Found", response_headers)
-                    return []
-                else:
-                    return app(environ, start_response)
+                app = self.authorities[authority.lower()]
             except KeyError:
                 # bad host in request
                 start_response("400 Bad Request", [])
                 return []
+        if app is None:
+            # this implementation mainly for testing, we want to read
+            # all the data from the input string
+            response_headers = []
+            start_response("404 Page Not Found", response_headers)
+            return []
+        else:
+            return app(environ, start_response)
 
     def get_request(self):
         """Adds logging of socket errors on connect
-- 
2.43.0


From 3ba00f5cadada43b922648b900080ca268cc7dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:56 +0000
Subject: [PATCH 055/157] fix: HTTP server connection limit

---
 pyslet/http/server.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 57c84f2..656bc44 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -577,9 +577,9 @@ class Connection(socketserver.BaseRequestHandler):
     def service_unavailable(self):
         # return a 503 response
         write_socket(self.request,
-                     "HTTP/1.1 503 Service Unavailable\r\n"
-                     "Connection: close\r\n"
-                     "\r\n",
+                     b"HTTP/1.1 503 Service Unavailable\r\n"
+                     b"Connection: close\r\n"
+                     b"\r\n",
                      self.server.connection_timeout)
 
 
@@ -684,7 +684,7 @@ class Server(socketserver.ThreadingMixIn, socketserver.TCPServer):
         # add this connection to the queue
         with self.lock:
             if (self.con_max is not None and
-                    len(self.connections) > self.con_max):
+                    len(self.connections) >= self.con_max):
                 # refuse this connection, we're too busy
                 connection.id = 0
             else:
@@ -740,7 +740,7 @@ class Server(socketserver.ThreadingMixIn, socketserver.TCPServer):
         try:
             return socketserver.TCPServer.get_request(self)
         except socket.error as e:
-            logging.errror("Server socket error %s", repr(e))
+            logging.error("Server socket error %s", repr(e))
             raise
 
     def handle_timeout(self):
-- 
2.43.0


From 6f9ec9e7cc158c0b8686b72a00a0ac457223861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 056/157] fix: HTTP server answers when the application fails
 and closes its result

---
 pyslet/http/server.py | 55 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 656bc44..4c80284 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -538,7 +538,7 @@ class Connection(socketserver.BaseRequestHandler):
                     logging.error("%s: Application timeout",
                                   response.request.get_start())
                     response.set_content_length(0)
-                    response.write_response('')
+                    response.write_response(b'')
                 logging.debug("...sending response")
                 # send the response
                 keep_alive = response.keep_alive
@@ -552,7 +552,9 @@ class Connection(socketserver.BaseRequestHandler):
                 # now loop round reading the data
                 while True:
                     data = response.send_body()
-                    if data is None:
+                    if response.failed:
+                        raise messages.HTTPException("application error")
+                    elif data is None:
                         # we're read blocked, wait for the response's
                         # pipe to be readable
                         response.send_pipe.read_wait(
@@ -568,6 +570,15 @@ class Connection(socketserver.BaseRequestHandler):
             # timeout waiting for a response object
             logging.error("HTTPServer: responseq timeout "
                           "(may indicate a stuck connection)")
+        except (IOError, messages.HTTPException) as e:
+            # the response can't be completed, all we can do is hang up
+            logging.error("HTTPServer: response abandoned, %s", str(e))
+            response.close()
+            self.finished.set()
+            try:
+                self.request.shutdown(socket.SHUT_RDWR)
+            except IOError:
+                pass
         self.finished.set()
         logging.debug("handle_responses: done")
 
@@ -829,6 +840,8 @@ class ServerResponse(messages.Response):
             name="ServerResponse[%i].send_pipe" % self.connection.id)
         #: a CascadingEvent set when the response headers are sent
         self.ready_to_send = CascadingEvent()
+        #: set if the application fails after that
+        self.failed = False
         self.send_continue = CascadingEvent()
         super(ServerResponse, self).__init__(
             request=request, entity_body=self.send_pipe, **kwargs)
@@ -839,7 +852,33 @@ class ServerResponse(messages.Response):
 
     def launch_app(self, environ):
         logging.debug("Calling wsgi application...")
+        try:
+            self.run_app(environ)
+        except Exception as e:
+            logging.error("%s: error in application, %s",
+                          self.request.get_start(), str(e))
+            if self.ready_to_send.is_set():
+                # too late to change the status, we must not give the
+                # impression that the response is complete
+                self.failed = True
+                self.send_pipe.write_eof()
+            else:
+                self.headers = {}
+                self.set_status(500)
+                self.clear_keep_alive()
+                self.body_len = 0
+                self.start_sending()
+        self.read_trailing(environ)
+
+    def run_app(self, environ):
         data = self.connection.server.launch_app(environ, self.start_response)
+        try:
+            self.write_data(data)
+        finally:
+            if hasattr(data, 'close'):
+                data.close()
+
+    def write_data(self, data):
         # does data support len?
         try:
             datalen = len(data)
@@ -850,6 +889,10 @@ class ServerResponse(messages.Response):
             if not isinstance(item, bytes):
                 logging.error("WSGI application yielded non bytes: %s",
                               repr(item))
+            if (self.request.method == 'HEAD' or self.status is None or
+                    self.status in (204, 304) or self.status // 100 == 1):
+                # no message body, whatever the application says
+                continue
             if datalen == 1:
                 # this is all the data, set the body_len
                 self.body_len = len(item)
@@ -887,6 +930,8 @@ class ServerResponse(messages.Response):
         # response that there is no more in case the body length was
         # indeterminate and the reader is reading forever
         self.send_pipe.write_eof()
+
+    def read_trailing(self, environ):
         # HTTP requires us to read the entire input pipe even if
         # we didn't use all the data, so do that here.
         input = environ['wsgi.input']
@@ -901,7 +946,11 @@ class ServerResponse(messages.Response):
             # request it will also generate an EOF on the input stream.
             # We'll stop at whichever is detected first!
             logging.debug("reading trailing data...")
-            data = input.read1(io.DEFAULT_BUFFER_SIZE)
+            try:
+                data = input.read1(io.DEFAULT_BUFFER_SIZE)
+            except IOError as e:
+                logging.warning("error reading trailing data: %s", str(e))
+                break
             if data:
                 if spool_count < io.DEFAULT_BUFFER_SIZE:
                     logging.warning(
-- 
2.43.0


From e7fbeb52c88277b816c8f06b69f2f5ced9c1ddd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:18 +0000
Subject: [PATCH 057/157] fix: separators are not integers in HTTP headers

---
 pyslet/http/grammar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyslet/http/grammar.py b/pyslet/http/grammar.py
index d1e7798..88460b9 100755
--- a/pyslet/http/grammar.py
+++ b/pyslet/http/grammar.py
@@ -80,8 +80,9 @@ CRLF = join_bytes([CR, LF])
 
 def is_hex(b):
     """Returns True if a byte matches the production for HEX."""
-    return (b is not None and is_digit(b) or (65 <= byte_value(b) <= 70) or
-            (97 <= byte_value(b) <= 102))
+    return b is not None and (
+        is_digit(b) or (65 <= byte_value(b) <= 70) or
+        (97 <= byte_value(b) <= 102))
 
 
 def is_hexdigits(src):
@@ -745,7 +746,7 @@ class WordParser(ParserMixin):
 
     def is_integer(self):
         """Returns True if the current word is an integer token"""
-        return self.the_word and is_digits(self.the_word)
+        return self.is_token() and is_digits(self.the_word)
 
     def parse_integer(self):
         """Parses an integer token from the list of words
@@ -770,7 +771,7 @@ class WordParser(ParserMixin):
 
     def is_hexinteger(self):
         """Returns True if the current word is a hex token"""
-        return self.the_word and is_hexdigits(self.the_word)
+        return self.is_token() and is_hexdigits(self.the_word)
 
     def parse_hexinteger(self):
         """Parses a hex integer token from the list of words
-- 
2.43.0


From 7726f341f2831620ae76bf7ca0a662c39203ac66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:18 +0000
Subject: [PATCH 058/157] fix: responses without a body are not sent with a
 transfer coding

---
 pyslet/http/messages.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 045c103..7912a51 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1643,7 +1643,7 @@ class Request(Message):
             # encoding it means there is no message body as requests
             # cannot hang up to indicate the end of the message
             encoding = self.get_transfer_encoding()
-            if encoding and encoding[-1].token != "identity":
+            if encoding and any(e.token != "identity" for e in encoding):
                 raise ProtocolError("Transfer-Encoding of request must end "
                                     "with chunked")
             self.transferlength = 0
@@ -1888,6 +1888,8 @@ class Response(Message):
     def send_transferlength(self):
         if (self.status // 100 == 1 or self.status == 204 or
                 self.status == 304 or self.request.method == 'HEAD'):
+            if self.request.protocol <= params.HTTP_1p0:
+                self.set_transfer_encoding(None)
             if self.entity_body is not None and self.body_len != 0:
                 raise HTTPException(
                     "entity body not allowed in %i response to %s request" %
@@ -1916,6 +1918,7 @@ class Response(Message):
                 return
         if self.entity_body is None:
             # no body, the client expects a content length at least
+            self.set_transfer_encoding(None)
             self.set_content_length(0)
             self.transferchunked = False
             self.transferlength = 0
-- 
2.43.0


From f36552eb44808383ba9871133f493e801d48e904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 059/157] fix: requests that can not be sent are reported

---
 pyslet/http/client.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index a1d5602..e33a37e 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -708,8 +708,17 @@ class Connection(SortableMixin):
         # has been accepted for processing, False otherwise.
         self.request = request
         self.request.connect(self, self.buffered_bytes)
-        self.request.start_sending(self.protocol)
-        headers = self.request.send_start() + self.request.send_header()
+        try:
+            self.request.start_sending(self.protocol)
+            headers = self.request.send_start() + self.request.send_header()
+        except Exception as err:
+            # this request can't be sent, the connection is not affected
+            logging.error("%s: failed to start request: %s",
+                          self.host, str(err))
+            self.request = None
+            request.connection = None
+            request.response.handle_disconnect(err)
+            return False
         logging.debug("Sending to %s: \n%s", self.host, headers)
         self.send_buffer.append(headers)
         self.buffered_bytes += len(headers)
-- 
2.43.0


From 2e5ccbc2cd1d6c4528c19648bd9781577db88ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:12 +0000
Subject: [PATCH 060/157] fix: requests waiting behind one that fails are
 reported too

---
 pyslet/http/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index e33a37e..9f5826c 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -2066,7 +2066,8 @@ class ClientResponse(messages.Response):
 
         We pass this information on to the request."""
         if err is None:
-            if self.recv_mode() == self.RECV_ALL:
+            if (self.status is not None and
+                    self.recv_mode() == self.RECV_ALL):
                 # the end of the data
                 self.recv(b'')
                 if self.recv_mode() is None:
-- 
2.43.0


From 4cf99eb881daf147f3d381bfceab9eae3a418650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:48 +0000
Subject: [PATCH 061/157] fix: credentials restricted to a realm

---
 pyslet/http/auth.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index 3941177..33d9780 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -170,7 +170,10 @@ class Credentials(Parameter):
         if self.protectionSpace != challenge.protectionSpace:
             return False
         if self.realm:
-            if self.realm != challenge.realm:
+            realm = challenge["realm"]
+            if not isinstance(self.realm, bytes):
+                realm = realm.decode('iso-8859-1')
+            if self.realm != realm:
                 return False
         return True
 
-- 
2.43.0


From 0509f0746ee087255a3a83b1312245d4d8efaad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 062/157] fix: redirects to relative references are followed

---
 pyslet/http/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 9f5826c..f65a8e0 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -2005,7 +2005,7 @@ class ClientRequest(messages.Request):
             # confirmed by the user
             location = self.response.get_location()
             if location:
-                if not location.host:
+                if not location.is_absolute():
                     # This is an error but a common one (thanks IIS!)
                     location = location.resolve(self.url)
                 if isinstance(location, params.HTTPURL):
-- 
2.43.0


From 296c6f5348aec03af368ab9bc01c3136cd0ce763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:15 +0000
Subject: [PATCH 063/157] fix: connections killed before they connect do not
 connect later

---
 pyslet/http/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index f65a8e0..575b46b 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -701,7 +701,8 @@ class Connection(SortableMixin):
                     # ignore errors, most likely the server has stopped
                     # listening
                     pass
-                self.closed = True
+            # we may be waiting to connect, see new_socket
+            self.closed = True
 
     def _start_request(self, request):
         # Starts processing the request.  Returns True if the request
-- 
2.43.0


From 05a01394abb23b13d8e6c7c2c133e62cc9b51f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:11 +0000
Subject: [PATCH 064/157] fix: HTTP server request bodies are not lost or cut
 short, one response per request

The data left in the pipe was discarded when the request was complete,
applications took the start of a truncated body for all of it and a
second response was then sent.  Connection: close from the application
and data passed to write are now respected.
---
 pyslet/http/server.py | 98 +++++++++++++++++++++++++------------------
 1 file changed, 57 insertions(+), 41 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 4c80284..3c797ad 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -407,27 +407,9 @@ class Connection(socketserver.BaseRequestHandler):
                     # log this error as a warning
                     # push a suitable response and then
                     # hang up, no good will come of this connection
-                    response = ServerResponse(request=request,
-                                              protocol=self.server.protocol)
-                    self.responseq.put(response)
-                    response.set_status(400)
-                    response.clear_keep_alive()
-                    txt = str(e).encode('iso8859-1')
-                    response.set_content_type(params.PLAIN_TEXT)
-                    response.set_content_length(len(txt))
-                    response.write_response(txt)
-                    self.finished.set()
+                    self.refuse_request(request, 400, str(e))
                 except NotImplementedError as e:
-                    response = ServerResponse(request=request,
-                                              protocol=self.server.protocol)
-                    self.responseq.put(response)
-                    response.set_status(501)
-                    response.clear_keep_alive()
-                    txt = str(e).encode('iso8859-1')
-                    response.set_content_type(params.PLAIN_TEXT)
-                    response.set_content_length(len(txt))
-                    response.write_response(txt)
-                    self.finished.set()
+                    self.refuse_request(request, 501, str(e))
                 except IOError as e:
                     if request.method:
                         logging.warning("Unexpected EOM: %s; %s",
@@ -435,28 +417,19 @@ class Connection(socketserver.BaseRequestHandler):
                     else:
                         # client may have hung up
                         logging.debug("timed out waiting for request")
-                    request.clear_keep_alive()
+                    request.abort()
                     self.finished.set()
                 except Exception as e:
                     # log this error as an internal server error push a
                     # suitable 500 response and then hang up because
                     # we've messed up
-                    response = ServerResponse(request=request,
-                                              protocol=self.server.protocol)
-                    self.responseq.put(response)
-                    response.set_status(500)
-                    response.clear_keep_alive()
-                    txt = str(e).encode('iso8859-1')
                     # import traceback
-                    # txt = traceback.format_exc().encode('iso-8859-1')
-                    logging.error("%s: %s", response.request.get_start(), txt)
-                    response.set_content_type(params.PLAIN_TEXT)
-                    response.set_content_length(len(txt))
-                    response.write_response(txt)
-                    self.finished.set()
-                # we've finished reading the message, close the recv_pipe
-                # to help clean things up quickly
-                request.recv_pipe.close()
+                    # logging.error(traceback.format_exc())
+                    logging.error("%s: %s", request.get_start(), str(e))
+                    self.refuse_request(request, 500, str(e))
+                # we've finished reading the message, the application
+                # may still have to read the data left in the recv_pipe
+                request.recv_pipe.write_eof()
                 if not request.keep_alive or request.response is None:
                     # the request wants us to close the connection or
                     # the client has hung up (or something has gone
@@ -480,6 +453,24 @@ class Connection(socketserver.BaseRequestHandler):
         logging.debug("handle_request: terminating connection...")
         self.responseq.put(None)
 
+    def refuse_request(self, request, status, message):
+        """Called when a request can't be received
+
+        Sends an error response, unless the application is already
+        dealing with the request, and then hangs up."""
+        request.abort()
+        if request.response is None:
+            response = ServerResponse(request=request,
+                                      protocol=self.server.protocol)
+            self.responseq.put(response)
+            response.set_status(status)
+            response.clear_keep_alive()
+            txt = message.encode('iso8859-1', 'replace')
+            response.set_content_type(params.PLAIN_TEXT)
+            response.set_content_length(len(txt))
+            response.write_response(txt)
+        self.finished.set()
+
     def handle_response(self, response):
         self.responseq.put(response)
 
@@ -770,9 +761,21 @@ class ServerRequest(messages.Request):
                               name="ServerRequest[%i].recv_pipe" %
                               self.connection.id)
         self.aborted = CascadingEvent()
+        #: set if the request was not received in full
+        self.truncated = False
         super(ServerRequest, self).__init__(entity_body=self.recv_pipe,
                                             **kwargs)
 
+    def abort(self):
+        """Called when the request can't be received in full
+
+        The application must not mistake the data received so far for
+        the complete entity body so the next read raises an error."""
+        self.truncated = True
+        self.clear_keep_alive()
+        self.aborted.set()
+        self.recv_pipe.close()
+
     def handle_headers(self):
         """Create a wsgi environment and start a processing thread"""
         super(ServerRequest, self).handle_headers()
@@ -864,7 +867,8 @@ class ServerResponse(messages.Response):
                 self.send_pipe.write_eof()
             else:
                 self.headers = {}
-                self.set_status(500)
+                # we may not have received all of the request
+                self.set_status(400 if self.request.truncated else 500)
                 self.clear_keep_alive()
                 self.body_len = 0
                 self.start_sending()
@@ -878,6 +882,11 @@ class ServerResponse(messages.Response):
             if hasattr(data, 'close'):
                 data.close()
 
+    def no_body(self):
+        # True if there is no message body in this response
+        return (self.request.method == 'HEAD' or self.status is None or
+                self.status in (204, 304) or self.status // 100 == 1)
+
     def write_data(self, data):
         # does data support len?
         try:
@@ -889,11 +898,10 @@ class ServerResponse(messages.Response):
             if not isinstance(item, bytes):
                 logging.error("WSGI application yielded non bytes: %s",
                               repr(item))
-            if (self.request.method == 'HEAD' or self.status is None or
-                    self.status in (204, 304) or self.status // 100 == 1):
+            if self.no_body():
                 # no message body, whatever the application says
                 continue
-            if datalen == 1:
+            if datalen == 1 and not self.ready_to_send.is_set():
                 # this is all the data, set the body_len
                 self.body_len = len(item)
             if not self.ready_to_send.is_set():
@@ -948,7 +956,8 @@ class ServerResponse(messages.Response):
             logging.debug("reading trailing data...")
             try:
                 data = input.read1(io.DEFAULT_BUFFER_SIZE)
-            except IOError as e:
+            except (IOError, ValueError) as e:
+                # ValueError is raised when the pipe is closed
                 logging.warning("error reading trailing data: %s", str(e))
                 break
             if data:
@@ -974,9 +983,16 @@ class ServerResponse(messages.Response):
                 self.set_header(name, None)
             for name, value in response_headers:
                 self.set_header(name, value, append_mode=True)
+            if self.get_header('Connection') and \
+                    'close' in self.get_connection():
+                # the application wants us to hang up
+                self.clear_keep_alive()
         return self.write_response
 
     def write_response(self, body_data):
+        if self.no_body():
+            body_data = None
+            self.body_len = 0
         if not self.ready_to_send.is_set():
             # start sending the response, we've got legacy data
             self.start_sending()
-- 
2.43.0


From 9b9bbb9fbcdeaeb9b0b01c4f6dc401817dcd351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 065/157] fix: make changes to the in-memory data service
 atomic

A failed insert, update, delete or deep insert left entities and links
behind, and replace ignored the multiplicity of the reverse link.
---
 pyslet/odata2/memds.py | 96 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 88 insertions(+), 8 deletions(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 6711cad..e010d75 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -1,6 +1,7 @@
 #! /usr/bin/env python
 """A simple Entity store using a python dictionary"""
 
+import contextlib
 import hashlib
 import threading
 import logging
@@ -93,8 +94,10 @@ class InMemoryEntityStore(object):
             if key in self.data:
                 raise edm.ConstraintError("Duplicate key: %s", str(key))
             self.data[key] = tuple(value)
+            self.container.on_undo(self.data.pop, key, None)
             # At this point the entity exists
             e.exists = True
+            self.container.on_undo(setattr, e, 'exists', False)
 
     def count_entities(self):
         with self.container.lock:
@@ -188,10 +191,16 @@ class InMemoryEntityStore(object):
                         v.set_default_value()
                         value[i] = v.value
                 i = i + 1
+            self.container.on_undo(self.data.__setitem__, key, self.data[key])
             self.data[key] = tuple(value)
 
     def update_entity_stream(self, key, stream, sinfo):
         with self.container.lock:
+            if key in self.streams:
+                self.container.on_undo(
+                    self.streams.__setitem__, key, self.streams[key])
+            else:
+                self.container.on_undo(self.streams.pop, key, None)
             self.streams[key] = (stream, sinfo)
 
     def get_tuple_from_complex(self, complex_value):
@@ -252,8 +261,11 @@ class InMemoryEntityStore(object):
                 aindex.delete_hook(key)
             for aindex in dict_values(self.reverseAssociations):
                 aindex.rdelete_hook(key)
+            self.container.on_undo(self.data.__setitem__, key, self.data[key])
             del self.data[key]
             if key in self.streams:
+                self.container.on_undo(
+                    self.streams.__setitem__, key, self.streams[key])
                 del self.streams[key]
 
     def test_key(self, key):
@@ -331,6 +343,8 @@ class InMemoryAssociationIndex(object):
     def add_link(self, from_key, to_key):
         """Adds a link from *from_key* to *to_key*"""
         with self.container.lock:
+            if to_key not in self.index.get(from_key, ()):
+                self.container.on_undo(self.remove_link, from_key, to_key)
             self.index.setdefault(from_key, set()).add(to_key)
             self.reverseIndex.setdefault(to_key, set()).add(from_key)
 
@@ -347,6 +361,8 @@ class InMemoryAssociationIndex(object):
     def remove_link(self, from_key, to_key):
         """Removes a link from *from_key* to *to_key*"""
         with self.container.lock:
+            if to_key in self.index.get(from_key, ()):
+                self.container.on_undo(self.add_link, from_key, to_key)
             self.index.get(from_key, set()).discard(to_key)
             self.reverseIndex.get(to_key, set()).discard(from_key)
 
@@ -355,6 +371,7 @@ class InMemoryAssociationIndex(object):
         try:
             to_keys = self.index[from_key]
             for to_key in to_keys:
+                self.container.on_undo(self.add_link, from_key, to_key)
                 from_keys = self.reverseIndex[to_key]
                 from_keys.remove(from_key)
                 if len(from_keys) == 0:
@@ -368,6 +385,7 @@ class InMemoryAssociationIndex(object):
         try:
             from_keys = self.reverseIndex[to_key]
             for from_key in from_keys:
+                self.container.on_undo(self.add_link, from_key, to_key)
                 to_keys = self.index[from_key]
                 to_keys.remove(to_key)
                 if len(to_keys) == 0:
@@ -424,7 +442,7 @@ class EntityCollection(odata.EntityCollection):
         suppress a constraint check (on the assumption that it has
         already been checked) by passing *from_end* directly to
         :py:meth:`Entity.check_navigation_constraints`."""
-        with self.entity_store.container.lock:
+        with self.entity_store.container.transaction():
             # This is a bit clumsy, but we lock the whole container while we
             # check all constraints and perform any nested deletes
             try:
@@ -473,9 +491,15 @@ class EntityCollection(odata.EntityCollection):
         else:
             raise KeyError
 
+    def update_bindings(self, entity):
+        for name, dv in entity.navigation_items():
+            self.entity_store.container.on_undo(
+                setattr, dv, 'bindings', list(dv.bindings))
+        super(EntityCollection, self).update_bindings(entity)
+
     def update_entity(self, entity, merge=True):
         # force an error if we don't have a key
-        with self.entity_store.container.lock:
+        with self.entity_store.container.transaction():
             self.entity_store.update_entity(entity, merge)
             # now process any bindings
             self.update_bindings(entity)
@@ -484,6 +508,10 @@ class EntityCollection(odata.EntityCollection):
         """We do a cascade delete of everything that *must* be linked to
         us. We don't need to bother about deleting links because the
         delete hooks on entity_store do this automatically."""
+        with self.entity_store.container.transaction():
+            self._delete_key(key)
+
+    def _delete_key(self, key):
         if not self.entity_store.start_deleting_entity(key):
             # we're already being deleted so do nothing
             return
@@ -578,7 +606,7 @@ class EntityCollection(odata.EntityCollection):
         sinfo.md5 = hashlib.md5(data).digest()
         # we need the lock to ensure the entity and stream and updated
         # together
-        with self.entity_store.container.lock:
+        with self.entity_store.container.transaction():
             if key is None:
                 e.auto_key()
             else:
@@ -619,7 +647,7 @@ class EntityCollection(odata.EntityCollection):
         sinfo.md5 = hashlib.md5(data).digest()
         # we need the lock to ensure the entity and stream and updated
         # together
-        with self.entity_store.container.lock:
+        with self.entity_store.container.transaction():
             if update:
                 self.update_entity(e)
             self.entity_store.update_entity_stream(key, data, sinfo)
@@ -674,10 +702,11 @@ class NavigationCollection(odata.NavigationCollection):
     def insert_entity(self, entity):
         """Inserts a new *entity* into the target entity set *and*
         simultaneously creates a link to it from the source entity."""
-        with self.entity_set.open() as baseCollection:
-            baseCollection.insert_entity(entity,
-                                         from_end=self.from_end.otherEnd)
-            self[entity.key()] = entity
+        with self.aindex.container.transaction():
+            with self.entity_set.open() as baseCollection:
+                baseCollection.insert_entity(entity,
+                                             from_end=self.from_end.otherEnd)
+                self[entity.key()] = entity
 
     def __len__(self):
         if self.filter is None:
@@ -713,6 +742,10 @@ class NavigationCollection(odata.NavigationCollection):
         raise KeyError(key)
 
     def __setitem__(self, key, value):
+        with self.aindex.container.transaction():
+            self._add_key(key, value)
+
+    def _add_key(self, key, value):
         result_set = self.lookupMethod(self.key)
         if key in result_set:
             # no operation
@@ -736,6 +769,10 @@ class NavigationCollection(odata.NavigationCollection):
             self.aindex.add_link(self.key, key)
 
     def __delitem__(self, key):
+        with self.aindex.container.transaction():
+            self._remove_key(key)
+
+    def _remove_key(self, key):
         # Before we remove a link we need to know if either entity
         # requires a link, if so, this deletion will result in a
         # constraint violation
@@ -751,6 +788,10 @@ class NavigationCollection(odata.NavigationCollection):
             self.aindex.remove_link(self.key, key)
 
     def replace(self, entity):
+        with self.aindex.container.transaction():
+            self._replace(entity)
+
+    def _replace(self, entity):
         key = entity.key()
         result_set = list(self.lookupMethod(self.key))
         if result_set == [key]:
@@ -766,6 +807,13 @@ class NavigationCollection(odata.NavigationCollection):
         else:
             # add the new link first
             if key not in result_set:
+                # forces a check of entity to ensure it is good
+                self.collection[key] = entity
+                if (self.fromMultiplicity != edm.Multiplicity.Many and
+                        self.rLookupMethod(key)):
+                    raise edm.NavigationConstraintError(
+                        "Entity %s is already bound through this "
+                        "association" % entity.get_location())
                 if self.reverse:
                     self.aindex.add_link(key, self.key)
                 else:
@@ -790,6 +838,9 @@ class InMemoryEntityContainer(object):
         """a lock that must be acquired before modifying any entity or
         association in this container"""
         self.lock = threading.RLock()
+        # the actions that undo the changes made by the current
+        # transaction, in the order the changes were made, or None
+        self._undo = None
         """a mapping from entity set names to
         :py:class:`InMemoryEntityStore` instances"""
         self.entityStorage = {}
@@ -829,3 +880,32 @@ class InMemoryEntityContainer(object):
                         from_storage,
                         to_storage,
                         np.name)
+
+    @contextlib.contextmanager
+    def transaction(self):
+        """A context manager that makes changes to this container atomic
+
+        The container is locked for the duration of the with statement.
+        If an exception is raised all the changes made to the container
+        are undone before the lock is released. Nested transactions are
+        combined with the outermost transaction."""
+        with self.lock:
+            if self._undo is not None:
+                yield
+                return
+            self._undo = []
+            try:
+                yield
+            except BaseException:
+                undo, self._undo = self._undo, None
+                for action, args in reversed(undo):
+                    action(*args)
+                raise
+            finally:
+                self._undo = None
+
+    def on_undo(self, action, *args):
+        """Called with the container locked, to record the action needed
+        to undo a change that is about to be (or has just been) made."""
+        if self._undo is not None:
+            self._undo.append((action, args))
-- 
2.43.0


From 831fe993fce1ca23aef4b9a5f59dd041c2876b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:59 +0000
Subject: [PATCH 066/157] fix: SQL data service: atomic updates and unique
 links

Reads made part way through an insert or update committed it, updates with
deep inserts passed the transaction as foreign keys, links to entities that
are limited to one were not unique, and removing a link that does not exist
raised TypeError.
---
 pyslet/odata2/sqlds.py | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 4712984..c15554d 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -278,7 +278,12 @@ class SQLTransaction(object):
     begin and commit calls provided that method follows the same pattern
     as the above for the try, except and finally blocks.  The object
     keeps track of these 'nested' transactions and delays the commit or
-    rollback until the outermost method invokes them."""
+    rollback until the outermost method invokes them.
+
+    Other transaction objects that share the connection, such as those
+    used to look up an entity part way through a sequence of methods,
+    are also treated as nested transactions once this transaction has
+    made a change."""
 
     def __init__(self, container, connection):
         self.container = container
@@ -313,14 +318,23 @@ class SQLTransaction(object):
         self.cursor.execute(sqlcmd,
                             params.params if params is not None else None)
         self.query_count += 1
+        if (self.connection.changed_by is None and
+                not sqlcmd.lstrip().upper().startswith('SELECT')):
+            self.connection.changed_by = self
+
+    def is_nested(self):
+        """True if this transaction is part of a larger one"""
+        return self.no_commit or \
+            self.connection.changed_by not in (None, self)
 
     def commit(self):
         """Ends this transaction with a commit
 
         Nested transactions do nothing."""
-        if self.no_commit:
+        if self.is_nested():
             return
         self.connection.dbc.commit()
+        self.connection.changed_by = None
 
     def rollback(self, err=None, swallow=False):
         """Calls the underlying database connection rollback method.
@@ -342,7 +356,8 @@ class SQLTransaction(object):
         swallow
             A flag (defaults to False) indicating that *err* should be
             swallowed, rather than re-raised."""
-        if not self.no_commit:
+        if not self.is_nested():
+            self.connection.changed_by = None
             try:
                 self.connection.dbc.rollback()
                 if err is not None:
@@ -353,10 +368,9 @@ class SQLTransaction(object):
                 if err is not None:
                     if self.query_count:
                         logging.error(
-                            "Data Integrity Error on TABLE %s: rollback "
+                            "Data Integrity Error: rollback "
                             "invoked on a connection that does not "
                             "support transactions after error %s",
-                            self.table_name,
                             str(err))
                     else:
                         logging.info(
@@ -382,6 +396,8 @@ class SQLTransaction(object):
             self.cursor.close()
             self.cursor = None
             self.query_count = 0
+            if self.connection.changed_by is self:
+                self.connection.changed_by = None
 
 
 class SQLCollectionBase(core.EntityCollection):
@@ -2486,7 +2502,8 @@ class SQLEntityCollection(SQLCollectionBase):
                         # add this entity to it's base collection
                         with target_set.open() as targetCollection:
                             targetCollection.insert_entity_sql(
-                                target_entity, link_end.otherEnd, transaction)
+                                target_entity, link_end.otherEnd,
+                                transaction=transaction)
                 # Finally, we have a target entity, add the foreign key to
                 # fk_values
                 for key_name in target_set.keys:
@@ -2622,7 +2639,8 @@ class SQLEntityCollection(SQLCollectionBase):
                                 else:
                                     # foreign keys are in an auxiliary table
                                     targetCollection.insert_entity_sql(
-                                        binding, link_end.otherEnd)
+                                        binding, link_end.otherEnd,
+                                        transaction=transaction)
                                     if dv.isCollection:
                                         navCollection.insert_link(
                                             binding, transaction)
@@ -2920,9 +2938,9 @@ class SQLEntityCollection(SQLCollectionBase):
                 # no rows matched this constraint, entity either doesn't exist
                 # or wasn't linked to the target
                 raise KeyError(
-                    "Entity %s does not exist or is not linked to %s" % str(
-                        entity.get_location(),
-                        target_entity.get_location))
+                    "Entity %s does not exist or is not linked to %s" % (
+                        str(entity.get_location()),
+                        str(target_entity.get_location())))
             transaction.commit()
         except Exception as e:
             transaction.rollback(e)
@@ -3058,6 +3076,8 @@ class SQLEntityCollection(SQLCollectionBase):
                     fk_names), self.container.mangled_names[
                     (target_set.name,)], ', '.join(
                     k_names)))
+            if unique:
+                constraints.append("UNIQUE (%s)" % ', '.join(fk_names))
         cols = cols + constraints
         query.append(", ".join(cols))
         query.append(')')
@@ -4061,6 +4081,8 @@ class SQLConnection(object):
         self.locked = 0
         self.last_seen = 0
         self.dbc = None
+        #: the :py:class:`SQLTransaction` that has uncommitted changes
+        self.changed_by = None
 
 
 class SQLEntityContainer(object):
-- 
2.43.0


From 6e4548b53a2cb1c0c5b635879afdc2a44ad90e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 067/157] fix: SQL connection pool: failures and closing

A connection that could not be opened or whose thread died stayed locked
or used up room in the pool, closing the container left waiting threads
waiting or let them take a connection, and the pool cleaner used a database
module that can't be shared while another thread was using it.
---
 pyslet/odata2/sqlds.py | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index c15554d..d7ce2b5 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -4653,6 +4653,8 @@ class SQLEntityContainer(object):
                 return None
             while not self.module_lock.acquire(False):
                 self.cpool_lock.wait(timeout)
+                if self.closing.is_set():
+                    return None
                 now = time.time()
                 if timeout is not None and now > start + timeout:
                     logging.warning(
@@ -4706,6 +4708,8 @@ class SQLEntityContainer(object):
                         "Thread[%i] forced to wait for a database connection",
                         thread_id)
                     self.cpool_lock.wait(timeout)
+                    if self.closing.is_set():
+                        break
                     logging.debug(
                         "Thread[%i] resuming search for database connection",
                         thread_id)
@@ -4716,11 +4720,16 @@ class SQLEntityContainer(object):
                 cpool_item.last_seen = time.time()
                 self.cpool_locked[thread_id] = cpool_item
         if cpool_item:
-            if close_flag:
-                self.close_connection(cpool_item.dbc)
-                cpool_item.dbc = None
-            if cpool_item.dbc is None:
-                cpool_item.dbc = self.open()
+            try:
+                if close_flag and cpool_item.dbc is not None:
+                    dbc, cpool_item.dbc = cpool_item.dbc, None
+                    self.close_connection(dbc)
+                if cpool_item.dbc is None:
+                    cpool_item.dbc = self.open()
+            except Exception:
+                # the caller will not be able to release it
+                self.release_connection(cpool_item)
+                raise
             return cpool_item
         # we are defeated, no database connection for the caller
         # release lock on the module as there is no connection to release
@@ -4829,6 +4838,9 @@ class SQLEntityContainer(object):
         old_time = now - max_idle
         to_close = []
         with self.cpool_lock:
+            if not self.module_lock.acquire(False):
+                # we can't close connections while the module is in use
+                return
             locked_list = list(dict_values(self.cpool_locked))
             for cpool_item in locked_list:
                 if not cpool_item.thread.is_alive():
@@ -4836,6 +4848,8 @@ class SQLEntityContainer(object):
                         "Thread[%i] failed to release database connection "
                         "before terminating", cpool_item.thread_id)
                     del self.cpool_locked[cpool_item.thread_id]
+                    self.cpool_size -= 1
+                    self.cpool_lock.notify()
                     to_close.append(cpool_item.dbc)
             unlocked_list = list(dict_values(self.cpool_unlocked))
             for cpool_item in unlocked_list:
@@ -4866,9 +4880,14 @@ class SQLEntityContainer(object):
                     to_close.append(cpool_item.dbc)
                     del self.cpool_idle[i]
                     self.cpool_size -= 1
-        for dbc in to_close:
-            if dbc is not None:
-                self.close_connection(dbc)
+        try:
+            for dbc in to_close:
+                if dbc is not None:
+                    self.close_connection(dbc)
+        finally:
+            with self.cpool_lock:
+                self.module_lock.release()
+                self.cpool_lock.notify()
 
     def open(self):
         """Creates and returns a new connection object.
@@ -4926,6 +4945,8 @@ class SQLEntityContainer(object):
         to_close = []
         self.closing.set()
         with self.cpool_lock:
+            # threads waiting for a connection must give up
+            self.cpool_lock.notify_all()
             nlocked = None
             while True:
                 while self.cpool_idle:
-- 
2.43.0


From 6708be0b064ee24dd5264e0e34569c337b590f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 068/157] fix: OData expressions: brackets, nulls, exact
 numbers, literal forms

Expressions in brackets that start with - or not, consecutive unary
operators and properties with names such as Time were refused; brackets
that matter were not printed; parameters were not available inside
brackets and calls; comparisons of null strings and dates raised
TypeError; division of integers and decimals went through floating point;
floats were printed in forms that can't be read back.
---
 pyslet/odata2/core.py | 111 +++++++++++++++++++++++++-----------------
 pyslet/odata2/csdl.py |  13 ++++-
 2 files changed, 79 insertions(+), 45 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 9e9793d..a11503f 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -506,17 +506,16 @@ class BinaryExpression(CommonExpression):
         super(BinaryExpression, self).__init__(operator)
 
     def __unicode__(self):
-        op_prefix = op_suffix = ''
-        if self.operator in Operator.IsSpecial:
+        if self.operator in (Operator.cast, Operator.isof):
+            # written like a call, the first operand is optional
+            return "%s(%s)" % (Operator.to_str(self.operator),
+                               ','.join(to_text(x) for x in self.operands))
+        elif self.operator in Operator.IsSpecial:
             if self.operator == Operator.member:
                 op = "/"
-            elif self.operator in (Operator.cast, Operator.isof):
-                op_prefix = "%s(" % Operator.to_str(self.operator)
-                op = ","
-                op_suffix = ")"
             else:
                 raise ValueError(
-                    "Can't format %s as a binary operator" & Operator.to_str(
+                    "Can't format %s as a binary operator" % Operator.to_str(
                         self.operator))
         else:
             op = " %s " % Operator.to_str(self.operator)
@@ -527,12 +526,14 @@ class BinaryExpression(CommonExpression):
             lvalue = "(%s)" % to_text(lvalue)
         else:
             lvalue = to_text(lvalue)
-        if rvalue.operator is not None and rvalue < self:
-            # right expression is weaker than us, use brackets
+        if rvalue.operator is not None and rvalue <= self:
+            # right expression is weaker than us, use brackets.  Operators
+            # of equal strength associate to the left so they need
+            # brackets too: a sub (b sub c)
             rvalue = "(%s)" % to_text(rvalue)
         else:
             rvalue = to_text(rvalue)
-        return uempty.join((op_prefix, lvalue, op, rvalue, op_suffix))
+        return uempty.join((lvalue, op, rvalue))
 
     def evaluate(self, context_entity):
         lvalue = self.operands[0].evaluate(context_entity)
@@ -644,16 +645,18 @@ class BinaryExpression(CommonExpression):
                 rvalue = rvalue.simple_cast(type_code)
                 result = edm.EDMValue.from_type(type_code)
                 if lvalue and rvalue:
-                    # OData doesn't really specify integer division rules so
-                    # we use floating point division and truncate towards zero
-                    result.set_from_value(
-                        int(float(lvalue.value) / float(rvalue.value)))
+                    # OData doesn't really specify integer division
+                    # rules so we truncate towards zero
+                    quotient = abs(lvalue.value) // abs(rvalue.value)
+                    if (lvalue.value < 0) != (rvalue.value < 0):
+                        quotient = -quotient
+                    result.set_from_value(quotient)
                 return result
             elif type_code is None:  # null div null
                 return edm.EDMValue.from_type(edm.SimpleType.Int32)
             else:
                 raise EvaluationError("Illegal operands for div")
-        except ZeroDivisionError as e:
+        except ArithmeticError as e:
             raise EvaluationError(str(e))
 
     def evaluate_mod(self, lvalue, rvalue):
@@ -666,8 +669,12 @@ class BinaryExpression(CommonExpression):
                 rvalue = rvalue.simple_cast(type_code)
                 result = edm.EDMValue.from_type(type_code)
                 if lvalue and rvalue:
-                    result.set_from_value(
-                        math.fmod(lvalue.value, rvalue.value))
+                    if type_code == edm.SimpleType.Decimal:
+                        # exact, also takes the sign of lvalue
+                        result.set_from_value(lvalue.value % rvalue.value)
+                    else:
+                        result.set_from_value(
+                            math.fmod(lvalue.value, rvalue.value))
                 return result
             elif type_code in (edm.SimpleType.Int32, edm.SimpleType.Int64):
                 lvalue = lvalue.simple_cast(type_code)
@@ -675,16 +682,18 @@ class BinaryExpression(CommonExpression):
                 result = edm.EDMValue.from_type(type_code)
                 if lvalue and rvalue:
                     # OData doesn't really specify integer division
-                    # rules so we use floating point division and
-                    # truncate towards zero
-                    result.set_from_value(int(math.fmod(float(lvalue.value),
-                                                        float(rvalue.value))))
+                    # rules so we truncate towards zero, the result has
+                    # the sign of lvalue
+                    remainder = abs(lvalue.value) % abs(rvalue.value)
+                    if lvalue.value < 0:
+                        remainder = -remainder
+                    result.set_from_value(remainder)
                 return result
             elif type_code is None:  # null div null
                 return edm.EDMValue.from_type(edm.SimpleType.Int32)
             else:
                 raise EvaluationError("Illegal operands for mod")
-        except (ZeroDivisionError, ValueError) as e:
+        except (ArithmeticError, ValueError) as e:
             raise EvaluationError(str(e))
 
     def evaluate_add(self, lvalue, rvalue):
@@ -752,7 +761,11 @@ class BinaryExpression(CommonExpression):
                 edm.SimpleType.String, edm.SimpleType.DateTime,
                 edm.SimpleType.DateTimeOffset, edm.SimpleType.Guid):
             result = edm.EDMValue.from_type(edm.SimpleType.Boolean)
-            result.set_from_value(relation(lvalue.value, rvalue.value))
+            if lvalue and rvalue:
+                result.set_from_value(relation(lvalue.value, rvalue.value))
+            else:
+                # one of the operands is null => False
+                result.set_from_value(False)
             return result
         elif type_code is None:  # e.g., null lt null
             result = edm.EDMValue.from_type(edm.SimpleType.Boolean)
@@ -1267,7 +1280,11 @@ class CallExpression(CommonExpression):
                 target = self.promote_param(args[0], edm.SimpleType.Double)
                 result = edm.EDMValue.from_type(edm.SimpleType.Double)
                 if target:
-                    result.set_from_value(math.floor(target.value))
+                    v = target.value
+                    # infinities (and NaN) have no integer equivalent
+                    result.set_from_value(
+                        v if math.isinf(v) or math.isnan(v) else
+                        math.floor(v))
             return result
         else:
             raise EvaluationError(
@@ -1285,7 +1302,10 @@ class CallExpression(CommonExpression):
                 target = self.promote_param(args[0], edm.SimpleType.Double)
                 result = edm.EDMValue.from_type(edm.SimpleType.Double)
                 if target:
-                    result.set_from_value(math.ceil(target.value))
+                    v = target.value
+                    result.set_from_value(
+                        v if math.isinf(v) or math.isnan(v) else
+                        math.ceil(v))
             return result
         else:
             raise EvaluationError(
@@ -1357,27 +1377,27 @@ class Parser(edm.Parser):
                     right_op = self.require_production(
                         self.parse_castlike(
                             Operator.isof,
-                            "isof"),
+                            "isof", params),
                         "isofExpression")
                 elif name == "cast":
                     self.parse_wsp()
                     right_op = self.require_production(
                         self.parse_castlike(
                             Operator.cast,
-                            "cast"),
+                            "cast", params),
                         "caseExpression")
                 elif name is not None:
                     self.parse_wsp()
                     if self.match("("):
                         method_call = Method.from_str(name)
                         right_op = self.parse_method_call_expression(
-                            method_call)
+                            method_call, params)
                     else:
                         right_op = PropertyExpression(name)
             if right_op is None:
                 if self.parse("("):
                     right_op = self.require_production(
-                        self.parse_common_expression(),
+                        self.parse_common_expression(params),
                         "commonExpression inside parenExpression")
                     self.require_production(
                         self.parse(")"), "closing bracket in parenExpression")
@@ -1394,8 +1414,9 @@ class Parser(edm.Parser):
                     # no common expression found at all
                     return None
             # if we already have a (unary) operator, skip the search for a
-            # binary operator
-            if not isinstance(right_op, UnaryExpression):
+            # binary operator (one that has its operand was in brackets)
+            if not isinstance(right_op, UnaryExpression) or \
+                    right_op.operands:
                 operand = right_op
                 self.parse_wsp()
                 if self.parse("/"):
@@ -1407,7 +1428,8 @@ class Parser(edm.Parser):
                     if name is not None:
                         try:
                             op_code = Operator.from_str(name)
-                            if op_code in Operator.IsSpecial:
+                            if op_code in Operator.IsSpecial or \
+                                    op_code == Operator.boolNot:
                                 raise ValueError
                             right_op = BinaryExpression(op_code)
                         except ValueError:
@@ -1435,8 +1457,9 @@ class Parser(edm.Parser):
             # right_op (an operator expression, never None)
             # next job, determine who binds more tightly, left or right?
             while True:
-                if left_op is None or left_op < right_op:
-                    # bind the operand to the right, in cases of equal
+                if operand is None or left_op is None or left_op < right_op:
+                    # a unary operator is itself (part of) an operand,
+                    # whatever is on the left.  Otherwise, bind the operand to the right, in cases of equal
                     # precedence we left associate 1+2-3 = (1+2)-3
                     if operand is not None:
                         right_op.add_operand(operand)
@@ -1455,14 +1478,14 @@ class Parser(edm.Parser):
                     else:
                         left_op = None
 
-    def parse_method_call_expression(self, method_call):
+    def parse_method_call_expression(self, method_call, params=None):
         method = CallExpression(method_call)
         self.require_production(
             self.parse("("), "opening bracket in methodCallExpression")
         while True:
             self.parse_wsp()
             param = self.require_production(
-                self.parse_common_expression(), "methodCall argument")
+                self.parse_common_expression(params), "methodCall argument")
             method.add_operand(param)
             self.parse_wsp()
             if self.parse(","):
@@ -1473,13 +1496,13 @@ class Parser(edm.Parser):
                 raise ValueError("closing bracket in methodCallExpression")
         return method
 
-    def parse_castlike(self, op, name):
+    def parse_castlike(self, op, name, params=None):
         """Parses a cast-like expression, including 'isof'."""
         self.parse_wsp()
         if self.parse("("):
             e = BinaryExpression(op)
             first_param = self.require_production(
-                self.parse_common_expression(), "%s argument" % name)
+                self.parse_common_expression(params), "%s argument" % name)
             e.add_operand(first_param)
             self.parse_wsp()
             if self.parse_one(")"):
@@ -1496,7 +1519,7 @@ class Parser(edm.Parser):
             # Final check, the string parameter must be a string literal!
             if not isinstance(string_param, LiteralExpression) or \
                     string_param.value.type_code != edm.SimpleType.String:
-                raise ValueError("%s requires string literal")
+                raise ValueError("%s requires string literal" % name)
             return e
         else:
             return None
@@ -1754,7 +1777,7 @@ class Parser(edm.Parser):
             result = edm.EDMValue.from_type(edm.SimpleType.Boolean)
             result.value = False
             return result
-        elif name == "datetimeoffset":
+        elif name == "datetimeoffset" and self.match("'"):
             result = edm.EDMValue.from_type(edm.SimpleType.DateTimeOffset)
             production = "datetimeoffset literal"
             self.require("'", production)
@@ -1762,7 +1785,7 @@ class Parser(edm.Parser):
             self.require("'", production)
             result.set_from_literal(dto_string)
             return result
-        elif name == "datetime":
+        elif name == "datetime" and self.match("'"):
             production = "datetime literal"
             self.require("'", production)
             result = edm.EDMValue.from_type(edm.SimpleType.DateTime)
@@ -1771,7 +1794,7 @@ class Parser(edm.Parser):
             self.require("'", production)
             result.value = value
             return result
-        elif name == "time":
+        elif name == "time" and self.match("'"):
             production = "time literal"
             self.require("'", production)
             result = edm.EDMValue.from_type(edm.SimpleType.Time)
@@ -1780,7 +1803,7 @@ class Parser(edm.Parser):
             self.require("'", production)
             result.value = value
             return result
-        elif name_case == "X" or name == "binary":
+        elif (name_case == "X" or name == "binary") and self.match("'"):
             self.require("'", "binary")
             result = edm.EDMValue.from_type(edm.SimpleType.Binary)
             value = self.parse_binary_literal()
@@ -1805,7 +1828,7 @@ class Parser(edm.Parser):
             result = edm.EDMValue.from_type(edm.SimpleType.Single)
             result.value = float("INF")
             return result
-        elif name == "guid":
+        elif name == "guid" and self.match("'"):
             result = edm.EDMValue.from_type(edm.SimpleType.Guid)
             self.require("'", "guid")
             hex = []
diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 3d6b431..7fcf073 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -641,7 +641,7 @@ class Parser(xsi.BasicParser):
         output = []
         hex_str = self.parse_hex_digits(1)
         if hex_str is None:
-            return ''
+            return b''
         if len(hex_str) % 2:
             raise ValueError(
                 "Trailing nibble in binary literal: '%s'" % hex_str[-1])
@@ -1593,6 +1593,10 @@ class FloatValue(NumericValue):
 
     Values are formatted using Python's default string conversion."""
 
+    def __unicode__(self):
+        # the literal forms do not allow a sign in a positive exponent
+        return super(FloatValue, self).__unicode__().replace('+', '')
+
     def set_from_value(self, new_value):
         if new_value is None:
             self.value = None
@@ -1698,6 +1702,13 @@ class SingleValue(FloatValue):
 
     # Min=2.0**-149             #: the smallest positive single value
 
+    def __unicode__(self):
+        result = super(SingleValue, self).__unicode__()
+        if 'e' in result and len(result.partition('e')[0]) > 10:
+            # the exponent form is limited to 9 digits
+            result = to_text("%.8e" % self.value).replace('+', '')
+        return result
+
     def set_from_numeric_literal(self, num):
         """Decodes a Single value from a :py:class:`Numeric` literal."""
         dstr = self.join_numeric_literal(num)
-- 
2.43.0


From 8b6901646d6b9502a429dd8af3ce48c56c029c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 069/157] fix: looking up a key in a filtered navigation
 collection

---
 pyslet/odata2/memds.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index e010d75..c2efdfa 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -734,10 +734,8 @@ class NavigationCollection(odata.NavigationCollection):
         result_set = self.lookupMethod(self.key)
         if key in result_set:
             result = self.collection[key]
-            if self.filter is None:
-                if self.check_filter(result):
-                    return result
-            else:
+            if self.check_filter(result):
+                result.expand(self.expand, self.select)
                 return result
         raise KeyError(key)
 
-- 
2.43.0


From a409f7b76fa585a67f6324049a16fc6409c30d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 070/157] fix: entities inserted or deleted while iterating
 over memds collections

---
 pyslet/odata2/memds.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index c2efdfa..b5a7c41 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -112,7 +112,7 @@ class InMemoryEntityStore(object):
         deleted during the iteration *may* not be yielded but an entity
         inserted during the iteration will never be yielded."""
         with self.container.lock:
-            keys = dict_keys(self.data)
+            keys = list(dict_keys(self.data))
         for k in keys:
             e = self.read_entity(k, select)
             if e is not None:
@@ -721,8 +721,13 @@ class NavigationCollection(odata.NavigationCollection):
     def entity_generator(self):
         # we create a collection from the appropriate entity set first
         result_set = self.lookupMethod(self.key)
-        for k in result_set:
-            yield self.collection[k]
+        for k in list(result_set):
+            try:
+                entity = self.collection[k]
+            except KeyError:
+                # deleted since we looked up the links
+                continue
+            yield entity
 
     def itervalues(self):
         return self.order_entities(
-- 
2.43.0


From 039af12b5ada142cda98cccea09e60292fd156cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 071/157] fix: filters and orderings by unselected properties
 in memds

---
 pyslet/odata2/memds.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index b5a7c41..8bdbf9a 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -478,13 +478,14 @@ class EntityCollection(odata.EntityCollection):
             return result
 
     def itervalues(self):
-        return self.order_entities(
-            self.expand_entities(
+        # filter and order first, they may use unselected properties
+        return self.expand_entities(
+            self.order_entities(
                 self.filter_entities(
-                    self.entity_store.generate_entities(self.select))))
+                    self.entity_store.generate_entities())))
 
     def __getitem__(self, key):
-        e = self.entity_store.read_entity(key, self.select)
+        e = self.entity_store.read_entity(key)
         if e is not None and self.check_filter(e):
             e.expand(self.expand, self.select)
             return e
@@ -730,8 +731,9 @@ class NavigationCollection(odata.NavigationCollection):
             yield entity
 
     def itervalues(self):
-        return self.order_entities(
-            self.expand_entities(
+        # filter and order first, they may use unselected properties
+        return self.expand_entities(
+            self.order_entities(
                 self.filter_entities(
                     self.entity_generator())))
 
-- 
2.43.0


From f807b44b1e230f7c0297e4c04f7b0b69aa30faf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 072/157] fix: ordering by expressions that are null

---
 pyslet/odata2/csdl.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 7fcf073..9095060 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -3128,8 +3128,9 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
                 elist = list(entity_iterable)
             # we avoid Py3 warnings by doing multiple sorts with a key function
             for rule, ruleDir in reversed(self.orderby):
-                elist.sort(key=lambda x: self.calculate_order_key(
-                    x, rule), reverse=True if ruleDir < 0 else False)
+                elist.sort(key=lambda x: self._null_first(
+                    self.calculate_order_key(x, rule)),
+                    reverse=True if ruleDir < 0 else False)
         if elist:
             for e in elist:
                 yield e
@@ -3137,6 +3138,11 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
             for e in entity_iterable:
                 yield e
 
+    @staticmethod
+    def _null_first(order_key):
+        # null values sort before all other values
+        return (order_key is not None, order_key)
+
     @old_method('SetInlineCount')
     def set_inlinecount(self, inlinecount):
         """Sets the inline count flag for this collection."""
-- 
2.43.0


From a8d837106611716760ecbe745be881a2cf8dc09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 073/157] fix: next_skiptoken after the last page

---
 pyslet/odata2/csdl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 9095060..163d796 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -3368,6 +3368,7 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
         finally:
             self.paging = False
         # no more pages
+        self.nextSkiptoken = None
         if set_next:
             self.top = self.skip = 0
             self.skiptoken = None
-- 
2.43.0


From eb498677787bd03457c91c0dd20420f403ee0b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 074/157] fix: grouping of operators of equal precedence in SQL
 filters

---
 pyslet/odata2/sqlds.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index d7ce2b5..c6903b8 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -1680,8 +1680,13 @@ class SQLCollectionBase(core.EntityCollection):
         query.append(' ')
         query.append(operator)
         query.append(' ')
-        query.append(
-            self.sql_expression(expression.operands[1], params, operator))
+        right = self.sql_expression(expression.operands[1], params, operator)
+        if (operator not in ("AND", "OR") and
+                isinstance(expression.operands[1], core.BinaryExpression) and
+                expression.operands[1].operator != core.Operator.member):
+            # operators of the same precedence group from the left
+            right = "(%s)" % right
+        query.append(right)
         return self.sql_bracket(''.join(query), context, operator)
 
     def sql_expression_mul(self, expression, params, context):
-- 
2.43.0


From 8d50b013e41b9065de7b9d5d9efecb9c219a6ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 075/157] fix: comparisons with null in SQL filters

---
 pyslet/odata2/sqlds.py | 44 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index c6903b8..a4cc695 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -63,6 +63,8 @@ SQLOperatorPrecedence = {
     '>': 4,
     '<=': 4,
     '>=': 4,
+    'IS': 4,
+    'IS NOT': 4,
     'LIKE': 4,
     '+': 5,
     '-': 5,
@@ -1761,8 +1763,25 @@ class SQLCollectionBase(core.EntityCollection):
         """Converts the isof expression: no default implementation"""
         raise NotImplementedError
 
+    def _compared_with_null(self, expression):
+        """Returns the operand compared with the null literal, if any"""
+        for i in (1, 0):
+            operand = expression.operands[i]
+            if (isinstance(operand, core.LiteralExpression) and
+                    not isinstance(operand, UnparameterizedLiteral) and
+                    not operand.value):
+                return expression.operands[1 - i]
+        return None
+
     def sql_expression_eq(self, expression, params, context):
-        """Converts the eq expression: maps to SQL "=" """
+        """Converts the eq expression: maps to SQL "="
+
+        Comparisons with the null literal map to "IS NULL"."""
+        operand = self._compared_with_null(expression)
+        if operand is not None:
+            return self.sql_bracket(
+                self.sql_expression(operand, params, '=') + ' IS NULL',
+                context, '=')
         return self.sql_expression_generic_binary(
             expression,
             params,
@@ -1770,7 +1789,14 @@ class SQLCollectionBase(core.EntityCollection):
             '=')
 
     def sql_expression_ne(self, expression, params, context):
-        """Converts the ne expression: maps to SQL "<>" """
+        """Converts the ne expression: maps to SQL "<>"
+
+        Comparisons with the null literal map to "IS NOT NULL"."""
+        operand = self._compared_with_null(expression)
+        if operand is not None:
+            return self.sql_bracket(
+                self.sql_expression(operand, params, '=') + ' IS NOT NULL',
+                context, '<>')
         return self.sql_expression_generic_binary(
             expression,
             params,
@@ -5616,6 +5642,20 @@ class SQLiteEntityCollectionBase(SQLCollectionBase):
     DEFAULT_VALUE = False
     """SQLite does not support setting a value =DEFAULT"""
 
+    def sql_expression_eq(self, expression, params, context):
+        """Converts the eq expression: maps to IS
+
+        In OData, unlike SQL, null is equal to null."""
+        return self.sql_expression_generic_binary(
+            expression, params, context, 'IS')
+
+    def sql_expression_ne(self, expression, params, context):
+        """Converts the ne expression: maps to IS NOT
+
+        In OData, unlike SQL, null is not equal to any other value."""
+        return self.sql_expression_generic_binary(
+            expression, params, context, 'IS NOT')
+
     def sql_expression_length(self, expression, params, context):
         """Converts the length method: maps to length( op[0] )"""
         query = ["length("]
-- 
2.43.0


From a09a568cd1f2c391311fbec6529a41abc09c2ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 076/157] fix: string functions in SQL filters

---
 pyslet/odata2/sqlds.py | 76 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 68 insertions(+), 8 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index a4cc695..b1e3b65 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -1837,13 +1837,17 @@ class SQLCollectionBase(core.EntityCollection):
         return self.sql_bracket(''.join(query), context, 'LIKE')
 
     def sql_expression_indexof(self, expression, params, context):
-        """Converts the indexof method: maps to POSITION( op[0] IN op[1] )"""
+        """Converts the indexof method
+
+        maps to POSITION( op[1] IN op[0] ) - 1"""
+        # the order of the operands, and hence of the parameters, is
+        # reversed in SQL
         query = ["POSITION("]
-        query.append(self.sql_expression(expression.operands[0], params, ','))
-        query.append(" IN ")
         query.append(self.sql_expression(expression.operands[1], params, ','))
-        query.append(")")
-        return ''.join(query)
+        query.append(" IN ")
+        query.append(self.sql_expression(expression.operands[0], params, ','))
+        query.append(") - 1")
+        return self.sql_bracket(''.join(query), context, '-')
 
     def sql_expression_replace(self, expression, params, context):
         """Converts the replace method: no default implementation"""
@@ -1890,12 +1894,13 @@ class SQLCollectionBase(core.EntityCollection):
     def sql_expression_substring(self, expression, params, context):
         """Converts the substring method
 
-        maps to SUBSTRING( op[0] FROM op[1] [ FOR op[2] ]"""
+        maps to SUBSTRING( op[0] FROM op[1] + 1 [ FOR op[2] ]"""
         query = ["SUBSTRING("]
         query.append(self.sql_expression(expression.operands[0], params, ','))
         query.append(" FROM ")
-        query.append(self.sql_expression(expression.operands[1], params, ','))
-        if len(expression.operands > 2):
+        query.append(self.sql_expression(expression.operands[1], params, '+'))
+        query.append(" + 1")
+        if len(expression.operands) > 2:
             query.append(" FOR ")
             query.append(
                 self.sql_expression(expression.operands[2], params, ','))
@@ -5717,6 +5722,61 @@ class SQLiteEntityCollectionBase(SQLCollectionBase):
         query.append(") AS INTEGER)")
         return ''.join(query)  # don't bother with brackets!
 
+    def sql_expression_endswith(self, expression, params, context):
+        """Converts the endswith method
+
+        SQLite's LIKE ignores case and treats % and _ in op[1] as
+        wildcards so this maps to a comparison with the last
+        length(op[1]) characters of op[0]"""
+        op0, op1 = expression.operands
+        query = "length(%s) >= length(%s) AND " % (
+            self.sql_expression(op0, params, ','),
+            self.sql_expression(op1, params, ','))
+        query += "substr(%s, length(%s) - length(%s) + 1) = %s" % (
+            self.sql_expression(op0, params, ','),
+            self.sql_expression(op0, params, ','),
+            self.sql_expression(op1, params, ','),
+            self.sql_expression(op1, params, '='))
+        return self.sql_bracket(query, context, 'AND')
+
+    def sql_expression_startswith(self, expression, params, context):
+        """Converts the startswith method: maps to instr(op[0],op[1]) = 1"""
+        return self.sql_bracket(
+            self._sql_instr(expression.operands[0], expression.operands[1],
+                            params) + " = 1", context, '=')
+
+    def sql_expression_substringof(self, expression, params, context):
+        """Converts the substringof method: maps to instr(op[1],op[0]) > 0"""
+        return self.sql_bracket(
+            self._sql_instr(expression.operands[1], expression.operands[0],
+                            params) + " > 0", context, '>')
+
+    def sql_expression_indexof(self, expression, params, context):
+        """Converts the indexof method: maps to instr(op[0],op[1]) - 1"""
+        return self.sql_bracket(
+            self._sql_instr(expression.operands[0], expression.operands[1],
+                            params) + " - 1", context, '-')
+
+    def _sql_instr(self, text, part, params):
+        return "instr(%s, %s)" % (self.sql_expression(text, params, ','),
+                                  self.sql_expression(part, params, ','))
+
+    def sql_expression_substring(self, expression, params, context):
+        """Converts the substring method
+
+        maps to substr(op[0], op[1] + 1 [, op[2]])"""
+        query = ["substr("]
+        query.append(self.sql_expression(expression.operands[0], params, ','))
+        query.append(", ")
+        query.append(self.sql_expression(expression.operands[1], params, '+'))
+        query.append(" + 1")
+        if len(expression.operands) > 2:
+            query.append(", ")
+            query.append(
+                self.sql_expression(expression.operands[2], params, ','))
+        query.append(")")
+        return ''.join(query)  # don't bother with brackets!
+
     def sql_expression_tolower(self, expression, params, context):
         """Converts the tolower method
 
-- 
2.43.0


From f42bb5ac207f51b2b178af4adfa224e9ac8b1e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 077/157] fix: skip without top in SQLite

---
 pyslet/odata2/sqlds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index b1e3b65..d25e443 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -5630,6 +5630,9 @@ class SQLiteEntityContainer(SQLEntityContainer):
         clause = []
         if top:
             clause.append('LIMIT %i ' % top)
+        elif skip:
+            # SQLite requires a limit if there is an offset
+            clause.append('LIMIT -1 ')
         if skip:
             clause.append('OFFSET %i ' % skip)
             skip = 0
-- 
2.43.0


From 9992b900794e014849ddb97735ecc3cf8f3db979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 078/157] fix: SQL skiptokens with null values

---
 pyslet/odata2/sqlds.py | 45 ++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index d25e443..d0acc69 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -1172,33 +1172,44 @@ class SQLCollectionBase(core.EntityCollection):
         i = ket = 0
         while True:
             if self.orderby and i < len(self.orderby):
-                oname = None
                 expression, dir = self.orderby[i]
             else:
+                expression = None
                 oname, dir = self.orderNames[i]
             v = self.skiptoken[i]
-            op = ">" if dir > 0 else "<"
-            if oname is None:
-                o_expression = self.sql_expression(expression, params, op)
+
+            def operand(op):
+                if expression is None:
+                    return oname
+                else:
+                    return self.sql_expression(expression, params, op)
+
+            def value():
+                return params.add_param(self.container.prepare_sql_value(v))
+
+            # null values sort before all other values
+            skip_expression.append("(")
+            if dir > 0 and not v:
+                skip_expression.append("%s IS NOT NULL" % operand('='))
+            elif dir > 0:
+                o_expression = operand('>')
+                skip_expression.append("%s > %s" % (o_expression, value()))
+            elif not v:
+                # nothing sorts after null
+                skip_expression.append("1 = 0")
             else:
-                o_expression = oname
-            skip_expression.append(
-                "(%s %s %s" %
-                (o_expression,
-                 op,
-                 params.add_param(
-                     self.container.prepare_sql_value(v))))
+                o_expression = operand('<')
+                skip_expression.append("%s < %s" % (o_expression, value()))
+                if expression is not None:
+                    skip_expression.append(" OR %s IS NULL" % operand('='))
             ket += 1
             i += 1
             if i < len(self.orderNames):
                 # more to come
-                if oname is None:
-                    # remake the expression
-                    o_expression = self.sql_expression(expression, params, '=')
+                o_expression = operand('=')
                 skip_expression.append(
-                    " OR (%s = %s AND " %
-                    (o_expression, params.add_param(
-                        self.container.prepare_sql_value(v))))
+                    " OR (%s IS NULL AND " % o_expression if not v else
+                    " OR (%s = %s AND " % (o_expression, value()))
                 ket += 1
                 continue
             else:
-- 
2.43.0


From 30601fc14d6f51a45999802d6f22ead774b0d6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 079/157] fix: SQL skiptokens relative to an earlier skip point

---
 pyslet/odata2/sqlds.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index d0acc69..9eca0c5 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -587,7 +587,7 @@ class SQLCollectionBase(core.EntityCollection):
                     order_len + len(self.entity_set.keys) + 1):
                 # the last value must be an integer we add to skip
                 if isinstance(self.skiptoken[-1], edm.Int32Value):
-                    self.skip += self.skiptoken[-1].value
+                    self.skip = (self.skip or 0) + self.skiptoken[-1].value
                     self.skiptoken = self.skiptoken[:-1]
                 else:
                     raise core.InvalidSystemQueryOption(
@@ -652,7 +652,7 @@ class SQLCollectionBase(core.EntityCollection):
                     # no more pages
                     if set_next:
                         self.top = self.skip = 0
-                        self.skipToken = None
+                        self.skiptoken = None
                     break
                 if skip:
                     skip = skip - 1
@@ -682,16 +682,20 @@ class SQLCollectionBase(core.EntityCollection):
                                                     edm.BinaryValue)):
                                 tokenlen += len(v.value)
                         # a really large skiptoken is no use to anyone
-                        if tokenlen > 512:
+                        if tokenlen > 512 and self.skiptoken is not None:
                             # ditch this one, copy the previous one and add a
                             # skip
                             self.nextSkiptoken = list(self.skiptoken)
                             v = edm.Int32Value()
-                            v.set_from_value(self.topmax)
+                            v.set_from_value((self.skip or 0) + self.topmax)
                             self.nextSkiptoken.append(v)
                         if set_next:
                             self.skiptoken = self.nextSkiptoken
                             self.skip = 0
+                            if len(self.skiptoken) > len(self.orderNames):
+                                # relative to an earlier skip point
+                                self.skip = self.skiptoken[-1].value
+                                self.skiptoken = self.skiptoken[:-1]
                         break
                 if top is not None:
                     top = top - 1
-- 
2.43.0


From 0e118a9def854056b9b5a7b9496d7674dd80ed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 080/157] fix: SQL skiptokens for pages that aren't limited by
 topmax or contain nulls

---
 pyslet/odata2/sqlds.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 9eca0c5..137ba0e 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -667,7 +667,8 @@ class SQLCollectionBase(core.EntityCollection):
                     self.container.read_sql_value(value, new_value)
                 entity.exists = True
                 yield entity
-                if topmax is not None:
+                if topmax is not None and (
+                        self.top is None or self.top > self.topmax):
                     topmax = topmax - 1
                     if topmax < 1:
                         # this is the last entity, set the nextSkiptoken
@@ -5311,6 +5312,8 @@ class SQLEntityContainer(object):
 
         You may need to override this method to identify the appropriate
         value type."""
+        if sql_value is None:
+            return edm.EDMValue.from_type(None)
         return edm.EDMValue.from_value(sql_value)
 
     def prepare_sql_literal(self, value):
-- 
2.43.0


From d6fdb9f9c0e5e757602ce2a4d510dc709c667584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 081/157] fix: comparing and ordering decimals in SQLite

---
 pyslet/odata2/sqlds.py | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 137ba0e..10ad56e 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -1575,7 +1575,8 @@ class SQLCollectionBase(core.EntityCollection):
                     if p.complexType is None:
                         field_name = self.container.mangled_names[
                             (self.entity_set.name, expression.name)]
-                        return "%s.%s" % (self.table_name, field_name)
+                        return self.sql_property(
+                            p, "%s.%s" % (self.table_name, field_name))
                     else:
                         raise core.EvaluationError(
                             "Unqualified property %s "
@@ -1664,7 +1665,19 @@ class SQLCollectionBase(core.EntityCollection):
                 '/'.join(name_list))
         field_name = self.container.mangled_names[
             tuple([entity_set.name] + path)]
-        return "%s.%s" % (table_name, field_name)
+        return self.sql_property(p, "%s.%s" % (table_name, field_name))
+
+    def sql_property(self, p, query):
+        """Converts a reference to a simple property in an expression
+
+        p
+            The property definition
+
+        query
+            The qualified name of the corresponding column
+
+        By default, returns query unchanged."""
+        return query
 
     def _calculate_member_field_name(self, expression):
         if isinstance(expression, core.PropertyExpression):
@@ -5668,6 +5681,21 @@ class SQLiteEntityCollectionBase(SQLCollectionBase):
     DEFAULT_VALUE = False
     """SQLite does not support setting a value =DEFAULT"""
 
+    def sql_property(self, p, query):
+        """Decimals are stored as text which compares differently"""
+        if p.simpleTypeCode == edm.SimpleType.Decimal:
+            return "CAST(%s AS REAL)" % query
+        return query
+
+    def sql_expression(self, expression, params, context="AND"):
+        """Decimals are passed as text which compares differently"""
+        query = super(SQLiteEntityCollectionBase, self).sql_expression(
+            expression, params, context)
+        if (isinstance(expression, core.LiteralExpression) and
+                isinstance(expression.value, edm.DecimalValue)):
+            return "CAST(%s AS REAL)" % query
+        return query
+
     def sql_expression_eq(self, expression, params, context):
         """Converts the eq expression: maps to IS
 
-- 
2.43.0


From 76a2c62ff60fb7a8aab56685f60bd8e58b978d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:46 +0000
Subject: [PATCH 082/157] fix: endless loop on a stray ]]> in content

---
 pyslet/xml/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index dec55de..4f7aa7e 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -2689,6 +2689,12 @@ class XMLParser(PEP8Compatibility):
                 if pcdata and not self.unhandled_data(pcdata):
                     # indicates end of the containing element
                     return False
+                if self.the_char == ']' and self.parse_literal(xml.CDATA_END):
+                    # parse_char_data stopped at a stray ]]>
+                    if not self.dont_check_wellformedness:
+                        self.well_formedness_error(
+                            "]]> not allowed in content")
+                    self.handle_data(xml.CDATA_END)
         return True
 
     def handle_data(self, data, cdata=False):
-- 
2.43.0


From 6d70c387444d70142c7fcbb59158d86c1dd90d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:29 +0000
Subject: [PATCH 083/157] fix: unterminated comments and spaces after hyphens
 in them

---
 pyslet/xml/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 4f7aa7e..ed5180d 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1633,6 +1633,8 @@ class XMLParser(PEP8Compatibility):
                 if nhyphens < 2:
                     data.append('-' * nhyphens + self.the_char)
                     nhyphens = 0
+                elif not self.dont_check_wellformedness:
+                    self.well_formedness_error("-- in Comment")
                 # space does not change the hyphen count
                 self.next_char()
             else:
@@ -1643,6 +1645,9 @@ class XMLParser(PEP8Compatibility):
                     nhyphens = 0
                 data.append(self.the_char)
                 self.next_char()
+        else:
+            if not self.dont_check_wellformedness:
+                self.well_formedness_error("Expected --> in Comment")
         return ''.join(data)
 
     def parse_pi(self, got_literal=False):
-- 
2.43.0


From b1922defdc83a9998d3dd2a6747e215618a3e413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:29 +0000
Subject: [PATCH 084/157] fix: processing instructions without target or end,
 or with %% in the DTD

---
 pyslet/xml/parser.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index ed5180d..c911d5c 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1666,18 +1666,20 @@ class XMLParser(PEP8Compatibility):
             self.parse_required_literal('<?', production)
         dentity = self.entity
         target = self.parse_pi_target()
-        if self.parse_s():
+        if self.is_s():
+            # parameter entities are not recognized in processing
+            # instructions
+            while self.is_s():
+                self.next_char()
             while self.the_char is not None:
-                if self.the_char == '?':
-                    self.next_char()
-                    if self.the_char == '>':
-                        self.next_char()
-                        break
-                    else:
-                        # just a single '?'
-                        data.append('?')
+                if self.parse_literal('?>'):
+                    break
                 data.append(self.the_char)
                 self.next_char()
+            else:
+                if not self.dont_check_wellformedness:
+                    self.well_formedness_error(
+                        production + ": expected ?>")
         else:
             self.check_pe_between_declarations(dentity)
             self.parse_required_literal('?>', production)
@@ -1691,7 +1693,7 @@ class XMLParser(PEP8Compatibility):
 
         Parses a processing instruction target name, the name is
         returned."""
-        name = self.parse_name()
+        name = self.parse_required_name("[17] PITarget")
         if name.lower() == 'xml':
             self.buff_text(name)
             self.well_formedness_error(
-- 
2.43.0


From 44aa70fe26b9868110b06abdb70e1d7c2b0c81cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:29 +0000
Subject: [PATCH 085/157] fix: parameter entity references outside the DTD
 subsets

---
 pyslet/xml/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index c911d5c..0e4230e 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1908,6 +1908,8 @@ class XMLParser(PEP8Compatibility):
         save_mode = self.refMode
         self.refMode = XMLParser.RefModeInDTD
         self.dtd = xml.XMLDTD()
+        # parameter entities are only recognized within the subsets
+        self.noPERefs = True
         self.parse_required_s(production)
         self.dtd.name = self.parse_required_name(production)
         if self.parse_s():
@@ -1918,8 +1920,10 @@ class XMLParser(PEP8Compatibility):
         if self.parse_literal('['):
             # If there is no external_id we treat as standalone (until a
             # PE ref)
+            self.noPERefs = False
             self.parse_int_subset()
             self.parse_required_literal(']', production)
+            self.noPERefs = True
             self.parse_s()
         if self.check_validity and self.dtd.external_id:
             # Before we parse the closing literal we load any external subset
@@ -1928,8 +1932,10 @@ class XMLParser(PEP8Compatibility):
             if src:
                 external_dtd_subset = xml.XMLEntity(src)
                 self.push_entity(external_dtd_subset)
+                self.noPERefs = False
                 self.parse_ext_subset()
         self.parse_required_literal('>', production)
+        self.noPERefs = False
         self.refMode = save_mode
         return self.dtd
 
-- 
2.43.0


From c8af11837a162b3126d8134ba8ac46ad39fd15bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:29 +0000
Subject: [PATCH 086/157] fix: processing instructions such as xml-stylesheet
 at the start

---
 pyslet/xml/parser.py     | 16 ++++++++++++++--
 pyslet/xml/structures.py |  2 +-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 0e4230e..3759ef6 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1759,7 +1759,7 @@ class XMLParser(PEP8Compatibility):
         Parses the document prolog, including the XML declaration and
         dtd."""
         production = "[22] prolog"
-        if self.parse_literal('<?xml'):
+        if self.parse_decl_start():
             self.parse_xml_decl(True)
         else:
             self.declaration = None
@@ -1797,6 +1797,18 @@ class XMLParser(PEP8Compatibility):
                         "of entity %s has not been declared" %
                         (edef.notation, ename))
 
+    def parse_decl_start(self):
+        """Parses the literal that starts an XML or text declaration
+
+        Returns True if the literal '<?xml' was parsed, but not if it
+        is just the start of the target of a processing instruction such
+        as xml-stylesheet, in which case it is left unparsed."""
+        if self.parse_literal('<?xml'):
+            if not xml.is_name_char(self.the_char):
+                return True
+            self.buff_text('<?xml')
+        return False
+
     def parse_xml_decl(self, got_literal=False):
         """[23] XMLDecl
 
@@ -2016,7 +2028,7 @@ class XMLParser(PEP8Compatibility):
         """[30] extSubset
 
         Parses an external subset"""
-        if self.parse_literal('<?xml'):
+        if self.parse_decl_start():
             self.parse_text_decl(True)
         else:
             self.check_encoding(self.entity, None)
diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 7ce723e..401c200 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -3738,7 +3738,7 @@ class XMLDeclaredEntity(XMLEntity):
             # Now to handle the text declaration
             from pyslet.xml.parser import XMLParser
             p = XMLParser(self)
-            if p.parse_literal('<?xml'):
+            if p.parse_decl_start():
                 p.parse_text_decl(True)
             self.keep_encoding()
             # at this point we may have some left over text in p's buffer
-- 
2.43.0


From 930d9c0e4fe462beddbfcad13e0c1c6c07d7c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:46 +0000
Subject: [PATCH 087/157] fix: error for a missing content specification

---
 pyslet/xml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 3759ef6..ad437b5 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -2862,7 +2862,7 @@ class XMLParser(PEP8Compatibility):
                 etype.content_model = self.parse_children(True, group_entity)
         else:
             self.well_formedness_error(
-                production, ": expected 'EMPTY', 'ANY' or '('")
+                production + ": expected 'EMPTY', 'ANY' or '('")
 
     def parse_children(self, got_literal=False, group_entity=None):
         """[47] children
-- 
2.43.0


From 1a9246f79ffae102dabed3c2e7cf5afcf5ec3b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:46 +0000
Subject: [PATCH 088/157] fix: parameter entity references in declarations of
 documents parsed from strings

---
 pyslet/xml/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index ad437b5..c14afa1 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1982,7 +1982,11 @@ class XMLParser(PEP8Compatibility):
         subset_entity = self.entity
         while True:
             if self.the_char == '<':
-                self.noPERefs = (self.get_external_entity() is subset_entity)
+                # the document itself need not have been opened as an
+                # external entity, e.g., if it is parsed from a string
+                xentity = self.get_external_entity()
+                self.noPERefs = (xentity is None or
+                                 xentity is subset_entity)
                 self.parse_markup_decl()
                 self.noPERefs = False
             elif self.the_char == '%' or self.is_s():
-- 
2.43.0


From 03d523422b1b4144546a28660199d053ce6ad157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:46 +0000
Subject: [PATCH 089/157] fix: supply #FIXED attribute values

---
 pyslet/xml/parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index c14afa1..f7fef43 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -2300,7 +2300,8 @@ class XMLParser(PEP8Compatibility):
                 value = attrs.get(a, None)
                 if value is None:
                     # check for default
-                    if adef.presence == xml.XMLAttributeDefinition.DEFAULT:
+                    if adef.presence in (xml.XMLAttributeDefinition.DEFAULT,
+                                         xml.XMLAttributeDefinition.FIXED):
                         attrs[a] = adef.defaultValue
                         if check_standalone:
                             self.validity_error(
@@ -2327,7 +2328,9 @@ class XMLParser(PEP8Compatibility):
                                 "normalization (externally defined tokenized "
                                 "type)" % a)
                         attrs[a] = new_value
-                if adef.presence == xml.XMLAttributeDefinition.FIXED:
+                if (adef.presence == xml.XMLAttributeDefinition.FIXED and
+                        value is not None):
+                    value = attrs[a]
                     if value != adef.defaultValue:
                         self.validity_error(
                             "Fixed Attribute Default: %s must match the "
-- 
2.43.0


From a994b63d750d1bca6f92867519d111d28de5b3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:46 +0000
Subject: [PATCH 090/157] fix: the first declaration of an entity is binding

---
 pyslet/xml/structures.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 401c200..72e5a9e 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -1037,11 +1037,14 @@ class XMLDTD(MigratedClass):
 
         The same method is used for both general and parameter entities.  The
         value of *entity* can be either an :py:class:`XMLGeneralEntity` or an
-        :py:class:`XMLParameterEntity` instance."""
+        :py:class:`XMLParameterEntity` instance.
+
+        If the same entity is declared more than once the first
+        declaration encountered is binding."""
         if isinstance(entity, XMLGeneralEntity):
-            self.general_entities[entity.name] = entity
+            self.general_entities.setdefault(entity.name, entity)
         elif isinstance(entity, XMLParameterEntity):
-            self.parameter_entities[entity.name] = entity
+            self.parameter_entities.setdefault(entity.name, entity)
         else:
             raise ValueError
 
-- 
2.43.0


From 0346ef6991fb46d351e45976edb754ddcf31231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 091/157] fix: endless loops on recursive entities, undeclared
 entities in attributes

---
 pyslet/xml/parser.py     | 22 ++++++++++++++++++++--
 pyslet/xml/structures.py |  3 +++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index f7fef43..c4048d4 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -3686,7 +3686,7 @@ class XMLParser(PEP8Compatibility):
                             self.well_formedness_error(
                                 "No External Entity References: &%s; not "
                                 "allowed in attribute value" % name)
-                        if e.is_open() or (e is entity):
+                        if e.is_open() or self.is_reference_in(e, entity):
                             # if the last char of the entity is a ';'
                             # closing a recursive entity reference then
                             # the entity will have been closed so we
@@ -3696,6 +3696,7 @@ class XMLParser(PEP8Compatibility):
                                 "No Recursion: entity &%s; is already open" %
                                 name)
                         e.open()
+                        e.referrer = entity
                         self.push_entity(e)
                     return ''
                 elif self.standalone():
@@ -3705,6 +3706,21 @@ class XMLParser(PEP8Compatibility):
                 else:
                     self.validity_error(
                         "Entity Declared: undeclared general entity %s" % name)
+        return ''
+
+    def is_reference_in(self, e, entity):
+        """Returns True if *entity* is, or was referenced from, *e*
+
+        e
+            A declared entity
+
+        entity
+            The entity that contains the reference being parsed"""
+        while entity is not None:
+            if entity is e:
+                return True
+            entity = getattr(entity, 'referrer', None)
+        return False
 
     def lookup_predefined_entity(self, name):
         """Looks up pre-defined entities, e.g., "lt"
@@ -3787,7 +3803,7 @@ class XMLParser(PEP8Compatibility):
                     # internal, the latter being included because
                     # non-validating processors are not required to read
                     # them
-                    if e.is_open() or (e is entity):
+                    if e.is_open() or self.is_reference_in(e, entity):
                         self.well_formedness_error(
                             "No Recursion: entity %%%s; is already open" %
                             name)
@@ -3795,9 +3811,11 @@ class XMLParser(PEP8Compatibility):
                         # Parameter entities are fed back into the parser
                         # somehow
                         e.open()
+                        e.referrer = entity
                         self.push_entity(e)
                     elif self.refMode == XMLParser.RefModeInDTD:
                         e.open_as_pe()
+                        e.referrer = entity
                         self.push_entity(e)
             return ''
 
diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 72e5a9e..16d8759 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -3708,6 +3708,9 @@ class XMLDeclaredEntity(XMLEntity):
         XMLEntity.__init__(self)
         #: the entity in which this entity was declared
         self.entity = None
+        #: the entity containing the reference for which this entity was
+        #: last opened
+        self.referrer = None
         #: the name passed to the constructor
         self.name = name
         #: the definition passed to the constructor
-- 
2.43.0


From 7660f69bdd24e604588c2d07eb5d7aaeb0ad1d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:07 +0000
Subject: [PATCH 092/157] fix: repeated references to empty entities

---
 pyslet/xml/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index c4048d4..272a69b 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -830,6 +830,7 @@ class XMLParser(PEP8Compatibility):
             # entity used UTF-16 but it was completely empty (not even a
             # BOM) then that is an error.
             self.check_encoding(entity, None)
+            entity.close()
         if entity.buff_text:
             self.buff_text(entity.buff_text)
 
-- 
2.43.0


From 6a5534f6752358018b76db10c969ff39915fbcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:07 +0000
Subject: [PATCH 093/157] fix: several attributes in an element with a NOTATION
 attribute

---
 pyslet/xml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 272a69b..b25070c 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -3163,7 +3163,7 @@ class XMLParser(PEP8Compatibility):
                                 for ia in dict_values(alist):
                                     if (ia.type ==
                                             xml.XMLAttributeDefinition.
-                                            Notation):
+                                            NOTATION):
                                         self.validity_error(
                                             "One Notation per Element Type: "
                                             "attribute %s must not be of "
-- 
2.43.0


From ad11d38e693a132e78c08342c480a94d5031f390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:07 +0000
Subject: [PATCH 094/157] fix: carriage return references in entity values

---
 pyslet/xml/structures.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 16d8759..6f0fa74 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -3256,6 +3256,8 @@ class XMLEntity(MigratedClass):
         self.char_pos = None
         self.ignore_lf = None
         self.flags = {}
+        #: whether or not the End-of-Line handling rules apply
+        self.normalize_lines = True
         if is_unicode(src):
             self.open_unicode(src)
         elif isinstance(src, uri.URI):
@@ -3525,7 +3527,7 @@ class XMLEntity(MigratedClass):
             self.the_char = None
         else:
             self.the_char = self.chars[self.char_pos]
-            if self.the_char == '\x0D':
+            if self.the_char == '\x0D' and self.normalize_lines:
                 # change to a line feed and ignore the next line feed
                 self.the_char = '\x0A'
                 self.ignore_lf = True
@@ -3734,6 +3736,9 @@ class XMLDeclaredEntity(XMLEntity):
         amount of look-ahead which may result in some characters needing
         to be re-parsed. We pass this to future parsers using
         :py:attr:`buff_text`."""
+        # the lines of internal entities were normalized with their
+        # declarations, any CR left was referred to by number
+        self.normalize_lines = self.is_external()
         if isinstance(self.definition, bytes):
             self.open_string(self.definition)
         elif is_unicode(self.definition):
-- 
2.43.0


From 9bc90d933169b0839bea4235b872fd0ae078d218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:45 +0000
Subject: [PATCH 095/157] fix: markup that doesn't begin and end in the same
 entity

---
 pyslet/xml/parser.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index b25070c..610db9d 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -750,6 +750,12 @@ class XMLParser(PEP8Compatibility):
         self.dataCount = 0
         self.noPERefs = False
         self.gotPERef = False
+        # The entity flags in force when the last character, the last
+        # '<' and the last '&' were parsed.  These are used to check the
+        # nesting of markup and entities
+        self.charFlags = None
+        self.markupFlags = None
+        self.referenceFlags = None
 
     def get_context(self):
         """Returns the parser's context
@@ -768,6 +774,7 @@ class XMLParser(PEP8Compatibility):
         :py:attr:`the_char`.  If there are no characters left in the
         current entity then entities are popped from an internal entity
         stack automatically."""
+        self.charFlags = self.entity.flags
         if self.buff:
             self.buff = self.buff[1:]
         if self.buff:
@@ -2056,6 +2063,26 @@ class XMLParser(PEP8Compatibility):
             else:
                 break
 
+    def check_entity_nesting(self, flags, production):
+        """Checks that some markup began and ended in the same entity
+
+        flags
+            The flags of the entity the markup began in, or None if the
+            start of the markup was not recorded.
+
+        production
+            A string describing the markup.
+
+        The replacement text of an entity must match the production for
+        content so it can't contain part of a tag, element, comment,
+        etc.  The flags dictionary is replaced each time an entity is
+        opened, so it also distinguishes successive references to the
+        same entity."""
+        if (flags is not None and flags is not self.charFlags and
+                not self.dont_check_wellformedness):
+            self.well_formedness_error(
+                "%s must begin and end in the same entity" % production)
+
     def check_pe_between_declarations(self, check_entity):
         """[31] extSubsetDecl
 
@@ -2142,6 +2169,7 @@ class XMLParser(PEP8Compatibility):
             empty = False
         else:
             name, attrs, empty = self.parse_stag()
+            self.check_entity_nesting(self.markupFlags, "[40] STag")
             self.check_attributes(name, attrs)
             if self.check_validity:
                 if (self.element is None and
@@ -2230,6 +2258,7 @@ class XMLParser(PEP8Compatibility):
                 # was omitted)
                 while self.parse_content():
                     end_name = self.parse_etag()
+                    self.check_entity_nesting(self.markupFlags, "[42] ETag")
                     if end_name == name:
                         break
                     spurious_tag = True
@@ -2644,6 +2673,7 @@ class XMLParser(PEP8Compatibility):
         while True:
             if self.the_char == '<':
                 # element, CDSect, PI or Comment
+                self.markupFlags = flags = self.entity.flags
                 self.next_char()
                 if self.the_char == '!':
                     # CDSect or Comment
@@ -2691,6 +2721,7 @@ class XMLParser(PEP8Compatibility):
                     # end of content
                     self.buff_text('<')
                     break
+                self.check_entity_nesting(flags, "[43] content")
             elif self.the_char == '&':
                 # Reference
                 if self.sgml_omittag and not self.element.is_mixed():
@@ -3585,6 +3616,7 @@ class XMLParser(PEP8Compatibility):
             digits = self.parse_required_decimal_digits(production)
             data = character(int(digits))
         self.parse_required_literal(';', production)
+        self.check_entity_nesting(self.referenceFlags, production)
         if self.refMode == XMLParser.RefModeInDTD:
             raise XMLForbiddenEntityReference(
                 "&#%s%s; forbidden by context" % (qualifier, digits))
@@ -3604,6 +3636,7 @@ class XMLParser(PEP8Compatibility):
         referred to.  For a general entity the data returned will depend
         on the parsing context. For more information see
         :py:meth:`parse_entity_ref`."""
+        self.referenceFlags = self.entity.flags
         self.parse_required_literal('&', "[67] Reference")
         if self.the_char == '#':
             return self.parse_char_ref(True)
@@ -3654,6 +3687,7 @@ class XMLParser(PEP8Compatibility):
             self.parse_literal(';')
         else:
             self.parse_required_literal(';', production)
+        self.check_entity_nesting(self.referenceFlags, production)
         if self.refMode == XMLParser.RefModeInEntityValue:
             return "&%s;" % name
         elif self.refMode in (XMLParser.RefModeAsAttributeValue,
-- 
2.43.0


From cc8b068b3ca18b4e9f6cceb48ba4c5dc9da745ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:34 +0000
Subject: [PATCH 096/157] fix: entities ending in ]] followed by >

---
 pyslet/xml/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 610db9d..b1a1ac8 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1578,7 +1578,12 @@ class XMLParser(PEP8Compatibility):
             if self.the_char == '<' or self.the_char == '&':
                 break
             if self.the_char == ']':
+                flags = self.entity.flags
                 if self.parse_literal(xml.CDATA_END):
+                    if self.charFlags is not flags:
+                        # the text of an entity followed by other text
+                        data.append(xml.CDATA_END)
+                        continue
                     self.buff_text(xml.CDATA_END)
                     break
             self.is_s()     # force Unicode compatible white space handling
-- 
2.43.0


From d5557114c9200b79c3be82a58bbe079bab659a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:34 +0000
Subject: [PATCH 097/157] fix: declarations after parameter entities that
 aren't read

---
 pyslet/xml/parser.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index b1a1ac8..780bff3 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -750,6 +750,8 @@ class XMLParser(PEP8Compatibility):
         self.dataCount = 0
         self.noPERefs = False
         self.gotPERef = False
+        # True after a parameter entity reference that was not read
+        self.skipDecls = False
         # The entity flags in force when the last character, the last
         # '<' and the last '&' were parsed.  These are used to check the
         # nesting of markup and entities
@@ -3172,7 +3174,7 @@ class XMLParser(PEP8Compatibility):
                 if self.the_char == '>':
                     break
                 a = self.parse_att_def(True)
-                if self.dtd:
+                if self.dtd and not self.skipDecls:
                     if self.check_validity:
                         if a.type == xml.XMLAttributeDefinition.ID:
                             if (a.presence !=
@@ -3823,6 +3825,7 @@ class XMLParser(PEP8Compatibility):
                     self.validity_error(
                         "Entity Declared: undeclared parameter entity %s" %
                         name)
+                self.skip_declarations()
             else:
                 if (self.declared_standalone() and
                         e.entity is not self.docEntity):
@@ -3857,8 +3860,19 @@ class XMLParser(PEP8Compatibility):
                         e.open_as_pe()
                         e.referrer = entity
                         self.push_entity(e)
+                else:
+                    self.skip_declarations()
             return ''
 
+    def skip_declarations(self):
+        """Called when a parameter entity reference is not read
+
+        From here on entity and attribute-list declarations must not be
+        processed as the entity might have contained overriding
+        declarations, unless the document is declared standalone."""
+        if not self.declared_standalone():
+            self.skipDecls = True
+
     def parse_entity_decl(self, got_literal=False):
         """[70] EntityDecl
 
@@ -3883,7 +3897,7 @@ class XMLParser(PEP8Compatibility):
         if e.is_external():
             # Resolve the external ID relative to xentity
             e.location = self.resolve_external_id(e.definition, xentity)
-        if self.dtd:
+        if self.dtd and not self.skipDecls:
             e.entity = dentity
             self.dtd.declare_entity(e)
         return e
-- 
2.43.0


From 53471ca5465b3b6f3a2ea092b658075e7ee3764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:00 +0000
Subject: [PATCH 098/157] fix: illegal characters and bytes, names with
 characters above U+FFFF

---
 pyslet/xml/parser.py     | 11 ++++++++++-
 pyslet/xml/structures.py |  4 ++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 780bff3..c24bb43 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -782,12 +782,21 @@ class XMLParser(PEP8Compatibility):
         if self.buff:
             self.the_char = self.buff[0]
         else:
-            self.entity.next_char()
+            try:
+                self.entity.next_char()
+            except UnicodeError as e:
+                if self.dont_check_wellformedness:
+                    raise
+                self.well_formedness_error("Encoding: %s" % str(e))
             self.the_char = self.entity.the_char
             while self.the_char is None and self.entityStack:
                 self.entity.close()
                 self.entity = self.entityStack.pop()
                 self.the_char = self.entity.the_char
+            if (self.the_char is not None and not is_char(self.the_char) and
+                    not self.dont_check_wellformedness):
+                self.well_formedness_error("[2] Char: %s not allowed" %
+                                           repr(self.the_char))
 
     def buff_text(self, unused_chars):
         """Buffers characters that have already been parsed.
diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 6f0fa74..f6ba348 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -9,6 +9,7 @@ import random
 import warnings
 
 from copy import copy
+from sys import maxunicode
 from types import MethodType
 
 from .. import rfc2396 as uri
@@ -190,6 +191,9 @@ name_start_char = CharClass(
     (character(0xf900), character(0xfdcf)),
     (character(0xfdf0), character(0xfffd)))
 
+if maxunicode > 0xFFFF:
+    name_start_char.add_range(character(0x10000), character(0xeffff))
+
 
 @old_function('IsNameStartChar')
 def is_name_start_char(c):
-- 
2.43.0


From f1b8c2824900e7fdca1cca3ee9d691b2bfacbe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:33 +0000
Subject: [PATCH 099/157] fix: attributes with names like xmlnsfoo

---
 pyslet/xml/namespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/namespace.py b/pyslet/xml/namespace.py
index 25986f5..b972aa9 100644
--- a/pyslet/xml/namespace.py
+++ b/pyslet/xml/namespace.py
@@ -706,7 +706,7 @@ class XMLNSParser(XMLParser):
         :py:meth:`NSElement.set_attribute` by py:class:`XMLParser`."""
         ns = {}
         for aname in list(dict_keys(attrs)):
-            if aname.startswith('xmlns'):
+            if aname == 'xmlns' or aname.startswith('xmlns:'):
                 if len(aname) == 5:
                     # default ns declaration
                     ns[''] = attrs[aname]
-- 
2.43.0


From 8d89a44c77f6ad2bd7ccfac7ccf9ddba55ae77a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:33 +0000
Subject: [PATCH 100/157] fix: prefixes of attributes in the default namespace

---
 pyslet/xml/namespace.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/namespace.py b/pyslet/xml/namespace.py
index b972aa9..3769ab4 100644
--- a/pyslet/xml/namespace.py
+++ b/pyslet/xml/namespace.py
@@ -104,6 +104,17 @@ class NSNode(Node):
 
         Returns None if no prefix is currently in force for this
         namespace."""
+        return self._find_prefix(ns)
+
+    def get_attr_prefix(self, ns):
+        """Returns the prefix to use for attributes in a namespace
+
+        Just like :meth:`get_prefix` except that the default namespace
+        does not apply to attributes so the prefix is never an empty
+        string unless the attributes are in no namespace."""
+        return self._find_prefix(ns, False)
+
+    def _find_prefix(self, ns, use_default=True):
         if ns == XML_NAMESPACE:
             return 'xml'
         elif ns is None:
@@ -118,6 +129,12 @@ class NSNode(Node):
         ei = self
         while prefix is None and ei is not None:
             prefix = ei._ns_to_prefix.get(ns, None)
+            if prefix == '' and not use_default:
+                prefix = None
+                for p in sorted(dict_keys(ei._prefix_to_ns)):
+                    if p and ei._prefix_to_ns[p] == ns:
+                        prefix = p
+                        break
             if prefix is not None:
                 # this is the prefix to use, unless it has been reused...
                 ej = self
@@ -149,7 +166,8 @@ class NSNode(Node):
         ei = self
         while ei is not None:
             ns = ei._prefix_to_ns.get(prefix, None)
-            if ns:
+            if ns is not None:
+                # may be an empty string: xmlns="" means no namespace
                 break
             if prefix == '':
                 ns = getattr(ei, 'default_ns', None)
@@ -452,7 +470,7 @@ class NSElement(NSNode, Element):
                 prefix = ''
             else:
                 ns, aname = a
-                prefix = self.get_prefix(ns)
+                prefix = self.get_attr_prefix(ns)
             if prefix is None:
                 prefix = self.make_prefix(ns)
             if prefix:
-- 
2.43.0


From 45b89baded3c11e8b5f8b656a4f23c1b189a6fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:33 +0000
Subject: [PATCH 101/157] fix: writing elements in no namespace within a
 default namespace

---
 pyslet/xml/namespace.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/namespace.py b/pyslet/xml/namespace.py
index 3769ab4..d84453f 100644
--- a/pyslet/xml/namespace.py
+++ b/pyslet/xml/namespace.py
@@ -499,9 +499,16 @@ class NSElement(NSNode, Element):
             prefix = self.get_prefix(self.ns)
             if prefix is None:
                 # We need to declare our namespace
-                prefix = self.make_prefix(self.ns, '')
+                if '' in self._prefix_to_ns:
+                    prefix = self.make_prefix(self.ns)
+                else:
+                    prefix = self.make_prefix(self.ns, '')
         else:
             prefix = ''
+            if self.get_prefix_map().get('', ''):
+                # We're in no namespace, so the default namespace
+                # doesn't apply to us
+                self._prefix_to_ns[''] = ''
         if prefix:
             prefix = prefix + ':'
         self.write_xml_attributes(attributes, escape_function, root=root)
-- 
2.43.0


From ff314bee7e237d9ebd270a010059935bf1190255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:33 +0000
Subject: [PATCH 102/157] fix: line feeds and tabs in attribute values

---
 pyslet/xml/structures.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index f6ba348..e28804b 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -274,7 +274,9 @@ def escape_char_data(src, quote=False):
     """Returns a unicode string with XML reserved characters escaped.
 
     We also escape return characters to prevent them being ignored.  If quote
-    is True then the string is returned as a quoted attribute value."""
+    is True then the string is returned as a quoted attribute value in which
+    line feeds and tabs are also escaped to prevent them being replaced by
+    spaces."""
     data = []
     apos = 0
     quot = 0
@@ -287,6 +289,9 @@ def escape_char_data(src, quote=False):
             data.append('&gt;')
         elif c == '\r':
             data.append('&#xD;')
+        elif quote and c in '\n\t':
+            # would be normalized to a space when the value is parsed
+            data.append('&#x%X;' % ord(c))
         elif c == '"':
             quot += 1
             data.append(c)
@@ -362,6 +367,8 @@ def escape_char_data7(src, quote=False):
             dst.append("&gt;")
         elif c == '\r':
             dst.append("&#xD;")
+        elif quote and c in '\n\t':
+            dst.append("&#x%X;" % ord(c))
         elif c == q:
             dst.append(qstr)
         else:
-- 
2.43.0


From d11d936499545ee36c9feaf5040bfd898b212156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:18 +0000
Subject: [PATCH 103/157] fix: writing elements with empty data

---
 pyslet/xml/structures.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index e28804b..88ea6bb 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -1819,21 +1819,23 @@ class Element(Node):
             ichild = next(children)
         except StopIteration:
             # There was only one child
-            if is_text(first_child):
+            if is_text(first_child) and first_child:
                 first_child = collapse_space(first_child)
             yield first_child
             return
         # Collapse strings to a single string entry and collapse spaces
         data = []
         if is_text(first_child):
-            data.append(first_child)
+            if first_child:
+                data.append(first_child)
             smode = True
         else:
             smode = False
             yield first_child
         while True:
             if is_text(ichild):
-                data.append(ichild)
+                if ichild:
+                    data.append(ichild)
             else:
                 if data:
                     data_child = collapse_space(''.join(data), smode)
-- 
2.43.0


From 5ffea4b55b5f5aad8b971c4923fb28ebd671b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:49 +0000
Subject: [PATCH 104/157] fix: reading expanded links to nothing

---
 pyslet/odata2/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index a11503f..f009305 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -3537,6 +3537,9 @@ class Link(atom.Link):
                         entity.exists = exists
                         entry.get_value(entity)
                         entries.append(entity)
+                else:
+                    # an empty Inline element, there's nothing linked
+                    entries = []
                 deferred.set_expansion(
                     ExpandedEntityCollection(
                         from_entity=deferred.from_entity,
-- 
2.43.0


From 37adce1c6a448c6d35ff1bf33bbe2a16f5635326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:49 +0000
Subject: [PATCH 105/157] fix: deleting links to single entities by another key

---
 pyslet/odata2/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/client.py b/pyslet/odata2/client.py
index 770b806..41ca8aa 100755
--- a/pyslet/odata2/client.py
+++ b/pyslet/odata2/client.py
@@ -858,7 +858,10 @@ class NavigationCollection(ClientCollection, core.NavigationCollection):
                 str(self.linksURI) + core.ODataURI.format_entity_key(entity),
                 'DELETE')
         else:
-            # danger, how do we know that key really is the right one?
+            # the link's URL doesn't contain the key, it must be the key
+            # of the entity that is linked
+            if key not in self:
+                raise KeyError(key)
             request = http.ClientRequest(str(self.linksURI), 'DELETE')
         self.client.process_request(request)
         if request.status == 204:
-- 
2.43.0


From dcdce8c529e576d57ea600ef8cbe7caa2696b8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:13 +0000
Subject: [PATCH 106/157] fix: white space in the values of properties

---
 pyslet/odata2/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index f009305..9bf7eea 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -3324,7 +3324,11 @@ class Property(ODataElement):
                     edm.SimpleType.to_str(
                         value.type_code))
             if value:
-                ODataElement.set_value(self, to_text(value))
+                text = to_text(value)
+                if text != xml.collapse_space(text):
+                    # all the white space is part of the value
+                    self.set_space("preserve")
+                ODataElement.set_value(self, text)
             else:
                 self.set_attribute((ODATA_METADATA_NAMESPACE, 'null'), "true")
         elif isinstance(value, edm.Complex):
-- 
2.43.0


From 2adad8c14294a3c48fa9e6dfe8e8c5c103597260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:12 +0000
Subject: [PATCH 107/157] fix: percent signs and other characters in keys in
 URLs

---
 pyslet/odata2/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 9bf7eea..3c341d8 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2367,7 +2367,7 @@ class ODataURI(PEP8Compatibility):
             if len(keys) == 0:
                 return name, {}
             elif len(keys) == 1:
-                return name, {keys[0][0]: uri_literal_from_str(keys[0][1])}
+                return name, {keys[0][0]: cls._parse_literal(keys[0][1])}
             else:
                 key_predicate = {}
                 for k in keys:
@@ -2375,12 +2375,18 @@ class ODataURI(PEP8Compatibility):
                         raise ValueError(
                             "unrecognized key predicate: %s" % repr(keys))
                     kname, value = k
-                    kvalue = uri_literal_from_str(value)
+                    kvalue = cls._parse_literal(value)
                     key_predicate[kname] = kvalue
                 return name, key_predicate
         else:
             return segment, None
 
+    @staticmethod
+    def _parse_literal(source):
+        # source has been unescaped already
+        p = Parser(source)
+        return p.require_production_end(p.parse_uri_literal(), "uri literal")
+
     def get_param_value(self, param_name):
         if param_name in self.param_table:
             param_def = self.query_options[self.param_table[param_name]]
-- 
2.43.0


From 80d6009a89f62f63e403b804b4b22e3576407154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:12 +0000
Subject: [PATCH 108/157] fix: characters that aren't ASCII in the paths of
 requests

---
 pyslet/odata2/server.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/odata2/server.py b/pyslet/odata2/server.py
index 9267e10..812061d 100755
--- a/pyslet/odata2/server.py
+++ b/pyslet/odata2/server.py
@@ -288,6 +288,12 @@ class Server(app.Server):
             app_path = environ.get('SCRIPT_NAME', "")
             path = app_path + environ['PATH_INFO']
             # we have to URL-encode PATH_INFO
+            if not isinstance(path, bytes):
+                try:
+                    # WSGI passes the bytes of the path as characters
+                    path = path.encode('iso-8859-1').decode('utf-8')
+                except UnicodeError:
+                    pass
             path = self.encode_pathinfo(path)
             query = environ.get('QUERY_STRING', None)
             if query:
-- 
2.43.0


From d4310b2d15ad8dafe2478743f895bc2f72eaad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:12 +0000
Subject: [PATCH 109/157] fix: fractions of seconds in filters written as text

---
 pyslet/odata2/core.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 3c341d8..6a2e00d 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -26,6 +26,7 @@ from ..py2 import (
     dict_items,
     dict_values,
     is_text,
+    range3,
     SortableMixin,
     to_text,
     uempty,
@@ -920,7 +921,7 @@ class LiteralExpression(CommonExpression):
         if not self.value:
             return "null"
         else:
-            result = to_text(self.value)
+            result = self._value_str()
             if self.value.type_code == edm.SimpleType.Binary:
                 result = "X'%s'" % result
             elif self.value.type_code == edm.SimpleType.DateTime:
@@ -944,6 +945,24 @@ class LiteralExpression(CommonExpression):
                 result = "'%s'" % "''".join(result.split("'"))
             return result
 
+    def _value_str(self):
+        result = to_text(self.value)
+        if self.value.p_def is None and self.value.type_code in (
+                edm.SimpleType.DateTime, edm.SimpleType.DateTimeOffset,
+                edm.SimpleType.Time):
+            # there's no precision defined, keep fractions of a second
+            t = self.value.value
+            for ndp in range3(1, 8):
+                if t.from_str(result) == t:
+                    break
+                if self.value.type_code == edm.SimpleType.Time:
+                    result = t.get_string(ndp=ndp, dp='.')
+                else:
+                    result = t.get_calendar_string(ndp=ndp, dp='.')
+                    if result[-1] == "Z":
+                        result = result[:-1] + "+00:00"
+        return result
+
     def evaluate(self, context_entity):
         """A literal evaluates to itself."""
         return self.value
-- 
2.43.0


From ec257c3c4021957731c7724015de4902b529406c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:02 +0000
Subject: [PATCH 110/157] fix: looking up keys in collections filtered with or

---
 pyslet/odata2/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/client.py b/pyslet/odata2/client.py
index 41ca8aa..3f3cb71 100755
--- a/pyslet/odata2/client.py
+++ b/pyslet/odata2/client.py
@@ -308,7 +308,7 @@ class ClientCollection(core.EntityCollection):
     def __getitem__(self, key):
         sys_query_options = {}
         if self.filter is not None:
-            sys_query_options[core.SystemQueryOption.filter] = "%s and %s" % (
+            sys_query_options[core.SystemQueryOption.filter] = "%s and (%s)" % (
                 core.ODataURI.key_dict_to_query(self.entity_set.key_dict(key)),
                 to_text(self.filter))
             entity_url = str(self.base_uri)
-- 
2.43.0


From cca7f092c439c0890ec7d3d55d3146d173d7dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:02 +0000
Subject: [PATCH 111/157] fix: error message for keys that match many entities

---
 pyslet/odata2/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/client.py b/pyslet/odata2/client.py
index 3f3cb71..323cc01 100755
--- a/pyslet/odata2/client.py
+++ b/pyslet/odata2/client.py
@@ -356,7 +356,7 @@ class ClientCollection(core.EntityCollection):
                 return entity
             else:
                 raise UnexpectedHTTPResponse("%i entities returned from %s" %
-                                             nresults, entity_url)
+                                             (nresults, entity_url))
         elif isinstance(doc.root, core.Error):
             raise KeyError(key)
         else:
-- 
2.43.0


From 05ee7934b34425a766b3776e22906dbb9c7d49b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:49 +0000
Subject: [PATCH 112/157] fix: bad Expires and Path attributes of a cookie are
 handled as in RFC6265

---
 pyslet/http/cookie.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index c352d3c..262b1c2 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -382,7 +382,9 @@ class CookieParser(grammar.OctetParser):
             aname_lower = aname.lower()
             if aname_lower == b"expires":
                 p = CookieParser(avalue)
-                expires = p.require_cookie_date()
+                date = p.require_cookie_date()
+                if date is not None:
+                    expires = date
             elif aname_lower == b"max-age":
                 if avalue and avalue[0] == HYPHEN:
                     if len(avalue) == 1:
@@ -409,6 +411,9 @@ class CookieParser(grammar.OctetParser):
             elif aname_lower == b"path":
                 if avalue and avalue[0] == grammar.SOLIDUS:
                     path = Cookie.cstr(avalue)
+                else:
+                    # the last attribute wins, this is the default path
+                    path = None
             elif aname_lower == b"secure":
                 secure = True
             elif aname_lower == b"httponly":
-- 
2.43.0


From 1885c9c0aadb0558c543559dd646db2ede52d6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:49 +0000
Subject: [PATCH 113/157] fix: cookies of hosts that are IPv6 addresses

---
 pyslet/http/cookie.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 262b1c2..4bb5d1f 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1054,7 +1054,7 @@ class CookieStore(object):
             host.reverse()
         except ValueError:
             # the domain is an IP address, match whole
-            host = [host]
+            host = [host_str]
         domain = c.domain
         if domain is None:
             domain_str = host_str
@@ -1123,7 +1123,7 @@ class CookieStore(object):
             host.reverse()
         except ValueError:
             # the domain is an IP address, match whole
-            host = [host]
+            host = [host_str]
         matched = []
         dpos = 0
         now = time.time()
-- 
2.43.0


From 78799c7df746d96cb194109b1f2a698ab3ae6e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:49 +0000
Subject: [PATCH 114/157] fix: cookies match identical paths and URLs with no
 path

---
 pyslet/http/cookie.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 4bb5d1f..861147f 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1146,14 +1146,11 @@ class CookieStore(object):
                     if c.domain is None and not host_match:
                         continue
                     # do a path match
-                    if url.abs_path is None:
-                        continue
-                    if len(url.abs_path) < len(c.path):
-                        continue
-                    if not (url.abs_path.startswith(c.path) and
+                    url_path = url.abs_path or '/'
+                    if not (url_path == c.path or (
+                            url_path.startswith(c.path) and
                             (c.path[-1] == '/' or
-                             url.abs_path[len(c.path):len(c.path) + 1] ==
-                             '/')):
+                             url_path[len(c.path)] == '/'))):
                         continue
                     # we have a domain and path match
                     if c.secure and not isinstance(url, params.HTTPSURL):
-- 
2.43.0


From 1edf1a8b553b4b443672c3b8ad25cc703a041100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:04 +0000
Subject: [PATCH 115/157] fix: cookies with an empty path get the default path

---
 pyslet/http/cookie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 861147f..78ab1a3 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1069,7 +1069,7 @@ class CookieStore(object):
                     "Can't set cookie for %s from %s" %
                     (domain_str, host_str))
         # check the path
-        if c.path is None:
+        if not c.path:
             if url.abs_path and url.abs_path[0] == '/':
                 path = url.abs_path.split('/')
                 if len(path) > 2:
-- 
2.43.0


From d0c4190ab5477f6cf3289e286851b53c05581fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:04 +0000
Subject: [PATCH 116/157] fix: hosts that are IPv4 addresses are not in domains

---
 pyslet/http/cookie.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 78ab1a3..b231723 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1063,7 +1063,10 @@ class CookieStore(object):
             domain_str = domain
             domain = split_domain(domain)
             domain.reverse()
-            if not domain_in_domain(domain, host):
+            if (not domain_in_domain(domain, host) or
+                    (len(domain) < len(host) and
+                     all(label.isdigit() for label in host))):
+                # IP addresses are matched whole
                 # you can't set this cookie from host
                 raise CookieError(
                     "Can't set cookie for %s from %s" %
-- 
2.43.0


From 310307b21841a19c4141547e88a804b300f35c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:04 +0000
Subject: [PATCH 117/157] fix: cookies to be ignored made HTTP client requests
 fail

---
 pyslet/http/client.py   | 3 ++-
 pyslet/http/messages.py | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 575b46b..471dfff 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1923,7 +1923,8 @@ class ClientRequest(messages.Request):
                             self.manager.cookie_store.set_cookie(
                                 self.url, icookie)
                             logging.info("Stored cookie: %s", str(icookie))
-                        except cookie.CookieError as e:
+                        except ValueError as e:
+                            # CookieError, or an invalid domain
                             logging.warning("Error setting cookie %s: %s",
                                             icookie.name, str(e))
             if self.res_bodystream:
diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 7912a51..138e582 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2077,7 +2077,12 @@ class Response(Message):
         """
         field_value = self.get_header('Set-Cookie', list_mode=True)
         if field_value is not None:
-            return list(cookie.Cookie.from_str(v) for v in field_value)
+            cookies = []
+            for v in field_value:
+                c = cookie.Cookie.from_str(v)
+                if c is not None:
+                    cookies.append(c)
+            return cookies
         else:
             return None
 
-- 
2.43.0


From 8d5c6076960e6d5cd7faefcf2576b7b5afed2578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:04 +0000
Subject: [PATCH 118/157] fix: suffixes of public domains are not public
 themselves

---
 pyslet/http/cookie.py | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index b231723..8518b6e 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1263,8 +1263,9 @@ class CookieStore(object):
                     else:
                         # create a new node
                         dnode = self._expand_node(old_node, d)
-                        # force this to be public
-                        dnode.public = True
+                        if dcount == 1:
+                            # force this to be public
+                            dnode.public = True
                 elif dcount == 1:
                     # this is the last label in the suffix, mark it
                     # as public if it isn't explicitly private
@@ -1468,34 +1469,26 @@ class CookieStore(object):
             return None
         with self.lock:
             dnode = self
-            dcount = len(domain)
-            matched = []
-            for d in domain:
+            # the number of labels in the longest public suffix
+            pcount = 0
+            for i, d in enumerate(domain):
                 old_node = dnode
                 dnode = old_node.nodes.get(d, None)
                 if dnode is None:
-                    # dcount is the number of labels left in domain
-                    if dcount > old_node.public_depth:
-                        # private domain with public prefix
-                        matched = matched + domain[
-                            -dcount:len(domain) - dcount +
-                            old_node.public_depth + 1]
-                    else:
-                        # public domain
-                        matched = None
-                    break
-                elif not dnode.public:
-                    # that's it, don't add any more labels after this one
-                    matched.append(d)
+                    if old_node.public_depth:
+                        pcount = i + old_node.public_depth
                     break
-                elif dcount == 1:
-                    # last label, this domain matches this rule exactly
-                    matched = None
+                elif dnode.private:
+                    # an exception, the public suffix is the parent
+                    pcount = i
                     break
-                matched.append(d)
-                dcount -= 1
-        if matched is None:
+                elif dnode.public:
+                    pcount = i + 1
+        if pcount >= len(domain):
+            # public domain
             return None
+        # one more label than the public suffix
+        matched = domain[:pcount + 1]
         matched.reverse()
         if u_labels:
             matched = [u[4:].decode('punycode') if is_a_label(u) else
-- 
2.43.0


From 8cc8d71d78f4a223c7af8949e05947dff00eff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:48 +0000
Subject: [PATCH 119/157] fix: cookies took the creation time of expired
 cookies

---
 pyslet/http/cookie.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 8518b6e..b2bd432 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1100,7 +1100,8 @@ class CookieStore(object):
                         "Cookie for public domain %s ignored" % domain_str)
             old_cookie = dnode.cookies.get((c.name, c.path), None)
             if old_cookie is not None:
-                c.creation_time = old_cookie.creation_time
+                if not old_cookie.expired():
+                    c.creation_time = old_cookie.creation_time
                 del dnode.cookies[(c.name, c.path)]
             if not c.expired():
                 dnode.cookies[(c.name, c.path)] = c
-- 
2.43.0


From 9b935bdbba6ce1311c2e32ffb2b5085096cb132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:02 +0000
Subject: [PATCH 120/157] fix: schema regular expressions match whole strings
 with any branch

---
 pyslet/xml/xsdatatypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index 5931b70..f72de17 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -926,7 +926,9 @@ class RegularExpression(UnicodeMixin):
         p = RegularExpressionParser(src)
         pyre = p.require_reg_exp()
         #: the compiled python regular expression
-        self.p = compile(pyre)
+        p.require_end("regExp")
+        # the whole string must match, whichever branch does
+        self.p = compile("(?:%s)\\Z" % pyre)
 
     def __unicode__(self):
         return self.src
-- 
2.43.0


From ce8db7678515ee0e34f74074aa20f1f95a3d8abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:02 +0000
Subject: [PATCH 121/157] fix: white_space_collapse added a space after the
 first character

---
 pyslet/xml/xsdatatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index f72de17..f40d9b5 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -903,7 +903,7 @@ def white_space_collapse(value):
         else:
             if output and got_space:
                 output.append(character(0x20))
-                got_space = False
+            got_space = False
             output.append(c)
     return ''.join(output)
 
-- 
2.43.0


From 474ce4e26d39c7ee7aff6ab5c46205eebd5b2cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:02 +0000
Subject: [PATCH 122/157] fix: decoding dictionaries of enumeration values

---
 pyslet/xml/xsdatatypes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index f40d9b5..139e2b1 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -664,7 +664,7 @@ class Enumeration(EnumBase):
         decoded then ValueError is raised."""
         try:
             src = src.strip()
-            src = src[0].upper() + src[1:].lower()
+            src = src[:1].upper() + src[1:].lower()
             return cls.decode[src]
         except KeyError:
             raise ValueError("Can't decode %s from %s" % (cls.__name__, src))
@@ -714,8 +714,8 @@ class Enumeration(EnumBase):
         result = {}
         for s in src.split():
             sv = decoder(s)
-        if sv not in result:
-            result[sv] = s
+            if sv not in result:
+                result[sv] = s
         return result
 
     @classmethod
-- 
2.43.0


From 4d3d0968aa826b84c22ec17a9877026003023c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:02 +0000
Subject: [PATCH 123/157] fix: XML schema doubles out of range, rounding and
 NaN

---
 pyslet/xml/xsdatatypes.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index 139e2b1..edd5f1f 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -258,9 +258,10 @@ def float_from_str(src):
             raise ValueError(
                 "Invalid lexical representation of double: %s" % src)
         m, e = s
-        m = decimal_from_str(m)
-        e = integer_from_str(e)
-        result = m * math.pow(10, e)
+        decimal_from_str(m)
+        integer_from_str(e)
+        # correctly rounded, large values overflow to infinity
+        result = float(src)
     elif s in ("inf", "-inf", "nan"):
         return float(s)
     else:
@@ -310,9 +311,10 @@ def double_from_str(src):
             raise ValueError(
                 "Invalid lexical representation of double: %s" % src)
         m, e = s
-        m = decimal_from_str(m)
-        e = integer_from_str(e)
-        return m * math.pow(10, e)
+        decimal_from_str(m)
+        integer_from_str(e)
+        # correctly rounded, large values overflow to infinity
+        return float(src)
     elif s in ("inf", "-inf", "nan"):
         return float(s)
     else:
@@ -353,7 +355,7 @@ def double_to_str(value, digits=None, strip_zeros=True, **kws):
         else:
             return "0." + ("0" * digits) + "E0"
     elif math.isnan(value):
-        return "NAN"
+        return "NaN"
     elif math.isinf(value):
         return "INF" if value > 0 else "-INF"
     if value < 0:
-- 
2.43.0


From 87bf37f217cd95f6dc8dcf2e64f7c656cc1e997d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:46 +0000
Subject: [PATCH 124/157] fix: doubles less than one were written with a wrong
 last digit

---
 pyslet/xml/xsdatatypes.py | 28 +++-------------------------
 1 file changed, 3 insertions(+), 25 deletions(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index edd5f1f..ab648a7 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -363,32 +363,10 @@ def double_to_str(value, digits=None, strip_zeros=True, **kws):
         value = -value
     else:
         sign = ''
-    try:
-        x = math.log10(value)
-    except ValueError:
-        # not sure if this is possible, a number so small log10 fails
-        return "0.0E0"
-    m, e = math.modf(x)
+    # correctly rounded to digits places after the point
+    mantissa, e = ("%.*E" % (digits, value)).split('E')
     e = int(e)
-    r, m = math.modf(math.pow(10, m + digits))
-    if r >= 0.5:
-        m = m + 1
-    dstring = list(str(int(m)))
-    # m should originally have been in [1,10) but we need to check for
-    # over/underflow
-    if len(dstring) > digits + 1:
-        # overflow, strip the trailing zero
-        e = e + 1
-        del dstring[-1]
-    elif len(dstring) <= digits:
-        # underflow - probably impossible, e.g,
-        # pow(10,log10(1.000)+N)->999....9(.9)
-        e = e - 1
-        dstring.append(_unine)
-    # inevitably, after this len(dstring)==digits+1
-    if _round_digits(dstring):
-        del dstring[-1]
-    assert dstring[0] != '0'
+    dstring = list(mantissa.replace('.', ''))
     if len(dstring) > 1:
         dstring[1:1] = _udot
     if strip_zeros:
-- 
2.43.0


From cc848e1236a91c20b2862fadc4af9fced691cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:29 +0000
Subject: [PATCH 125/157] fix: writing infinity as a decimal raised
 OverflowError

---
 pyslet/xml/xsdatatypes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index ab648a7..ece9eb4 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -173,6 +173,9 @@ def decimal_to_str(value, digits=None, strip_zeros=True, **kws):
         To override this behaviour and return exactly *digits* decimal
         places set *stripZeros* to False."""
     strip_zeros = kws.get('stripZeros', strip_zeros)
+    if math.isnan(value) or math.isinf(value):
+        raise ValueError("Invalid value for decimal: %s" %
+                         double_to_str(value))
     if value < 0:
         sign = '-'
         value = -value
@@ -209,9 +212,6 @@ def decimal_to_str(value, digits=None, strip_zeros=True, **kws):
             return "0.0"
         else:
             return "0." + ("0" * digits)
-    elif math.isnan(value) or math.isinf(value):
-        raise ValueError("Invalid value for decimal: %s" %
-                         double_to_str(value))
     f, i = math.modf(value * math.pow(10, digits))
     if f >= 0.5:
         i = i + 1
-- 
2.43.0


From 757163f7239a66dbb2f85572562f671ad67e358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:10 +0000
Subject: [PATCH 126/157] fix: copying the value of a QTI multiple container
 loses repeated values

---
 pyslet/qtiv2/variables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index 52964ef..66b3b1c 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -944,6 +944,9 @@ class MultipleContainer(Container):
         if value is None:
             self.value = None
         else:
+            if isinstance(value, dict):
+                # the value of another container: keep the frequencies
+                value = [v for v in value for i in range3(value[v])]
             self.value = {}
             for v in value:
                 if v is None:
-- 
2.43.0


From c130a18bc9cbe8d99191f4209fad3a385c24139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:10 +0000
Subject: [PATCH 127/157] fix: QTI power overflow is NULL

---
 pyslet/qtiv2/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index 544eec6..ce2b17f 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -1873,7 +1873,7 @@ class Power(NOperator):
             v2v = float(v2.value)
             try:
                 return variables.FloatValue(math.pow(v1v, v2v))
-            except ValueError:
+            except (ValueError, OverflowError):
                 # If the resulting value is outside the value set defined by
                 # float (not including positive and negative infinity) then the
                 # operator shall result in NULL
-- 
2.43.0


From 8e2a9a62d70a4ddaff107898e322a1d7cb06b115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:10 +0000
Subject: [PATCH 128/157] fix: QTI round just below a half, truncate and round
 of NaN and INF

---
 pyslet/qtiv2/expressions.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index ce2b17f..34565e3 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -1974,6 +1974,9 @@ class Truncate(UnaryOperator):
         variables.check_cardinalities(
             value.Cardinality(), variables.Cardinality.single)
         if value:
+            if math.isnan(value.value) or math.isinf(value.value):
+                # not in the value set of integer
+                return variables.IntegerValue()
             return variables.IntegerValue(int(value.value))
         else:
             return variables.IntegerValue()
@@ -2000,7 +2003,13 @@ class Round(UnaryOperator):
         variables.check_cardinalities(
             value.Cardinality(), variables.Cardinality.single)
         if value:
-            return variables.IntegerValue(int(math.floor(value.value + 0.5)))
+            if math.isnan(value.value) or math.isinf(value.value):
+                # not in the value set of integer
+                return variables.IntegerValue()
+            n = int(math.floor(value.value))
+            if value.value - n >= 0.5:
+                n += 1
+            return variables.IntegerValue(n)
         else:
             return variables.IntegerValue()
 
-- 
2.43.0


From 89971471c83687828ad40ec6bf67cdb33f614ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:49 +0000
Subject: [PATCH 129/157] fix: QTI equalRounded and values that round to zero

---
 pyslet/qtiv2/expressions.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index 34565e3..6c035ce 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -1395,14 +1395,10 @@ class EqualRounded(NOperator):
             v2v = float(v2.value)
             figures = self.integer_or_template_ref(state, self.figures)
             if self.roundingMode == RoundingMode.decimalPlaces:
+                # compare as numbers: zero can be written in more than one way
                 return variables.BooleanValue(
-                    xsi.decimal_to_str(
-                        v1v,
-                        figures,
-                        False) == xsi.decimal_to_str(
-                        v2v,
-                        figures,
-                        False))
+                    float(xsi.decimal_to_str(v1v, figures, False)) ==
+                    float(xsi.decimal_to_str(v2v, figures, False)))
             else:
                 # for sig fig, we need to use the double form
                 return variables.BooleanValue(
-- 
2.43.0


From 70d3c6137d80b6fea39203617f7b4ba75b92aec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:13 +0000
Subject: [PATCH 130/157] fix: HTTP quoted strings must be closed

---
 pyslet/http/grammar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/http/grammar.py b/pyslet/http/grammar.py
index 88460b9..d9c3b9a 100755
--- a/pyslet/http/grammar.py
+++ b/pyslet/http/grammar.py
@@ -434,6 +434,9 @@ class OctetParser(BasicParser):
                     qs.append(qdtext)
                 else:
                     self.parser_error('<">')
+        else:
+            # no closing quote
+            self.parser_error('<">')
         return b''.join(qs)
 
     def parse_qdtext(self, unfold=False):
-- 
2.43.0


From 36246836e879353f08ae55dc61c7de2653f8fade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:13 +0000
Subject: [PATCH 131/157] fix: HTTP tokens are not empty and contain only ASCII
 characters

---
 pyslet/http/grammar.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/grammar.py b/pyslet/http/grammar.py
index d9c3b9a..d62164a 100755
--- a/pyslet/http/grammar.py
+++ b/pyslet/http/grammar.py
@@ -183,12 +183,12 @@ def quote_string(s, force=True):
             qstring.append(REVERSE_SOLIDUS)
             qstring.append(b)
             force = True
-        elif is_ctl(b) or is_separator(b):
+        elif is_ctl(b) or is_separator(b) or not is_char(b):
             force = True
             qstring.append(b)
         else:
             qstring.append(b)
-    if force:
+    if force or not s:
         qstring.append(DQUOTE)
     else:
         del qstring[0]
@@ -319,7 +319,8 @@ class OctetParser(BasicParser):
         token was found."""
         token = []
         while self.the_char is not None:
-            if is_ctl(self.the_char) or is_separator(self.the_char):
+            if (is_ctl(self.the_char) or is_separator(self.the_char) or
+                    not is_char(self.the_char)):
                 break
             else:
                 token.append(self.the_char)
-- 
2.43.0


From fcba13bcd9ce4416c66a90d64a6a290f1f085f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:13 +0000
Subject: [PATCH 132/157] fix: HTTP qvalues may end with the decimal point

---
 pyslet/http/params.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index baf6efb..6ab778a 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -980,7 +980,8 @@ class ParameterParser(WordParser):
                 if is_digits(qsplit[0]):
                     q = float(qsplit[0])
             elif len(qsplit) == 2:
-                if is_digits(qsplit[0]) and is_digits(qsplit[1]):
+                if is_digits(qsplit[0]) and (not qsplit[1] or
+                                             is_digits(qsplit[1])):
                     q = float("%.3f" % float(self.the_word))
             if q is None:
                 return None
-- 
2.43.0


From 3a1fa34499e5463319333e78b57efccd45b84b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:13 +0000
Subject: [PATCH 133/157] fix: items of HTTP header lists are separated by
 commas

---
 pyslet/http/grammar.py | 2 ++
 pyslet/http/params.py  | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/grammar.py b/pyslet/http/grammar.py
index d62164a..78c09d8 100755
--- a/pyslet/http/grammar.py
+++ b/pyslet/http/grammar.py
@@ -730,6 +730,8 @@ class WordParser(ParserMixin):
             token = self.parse_token()
             if token:
                 result.append(token.decode('ascii'))
+                if not self.parse_separator(COMMA):
+                    break
             elif self.parse_separator(COMMA):
                 continue
             else:
diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 6ab778a..0c42d3c 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -412,6 +412,8 @@ class TransferEncoding(SortableParameter):
             else:
                 te = p.require_transfer_encoding()
                 telist.append(te)
+                if p.the_word is not None:
+                    p.require_separator(COMMA, "transfer-encoding list")
         return telist
 
     def to_bytes(self):
@@ -721,7 +723,7 @@ class LanguageTag(SortableParameter):
             if t is not None:
                 tags.append(t)
             p.parse_sp()
-            if not p.parse_separator(","):
+            if not p.parse_separator(COMMA):
                 break
         p.parse_sp()
         p.require_end("language tag")
-- 
2.43.0


From a385fe8b38a0ea6fb150686c2c89863b4c16e251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:13 +0000
Subject: [PATCH 134/157] fix: chunk and Accept extensions may have no value

---
 pyslet/http/grammar.py  | 16 +++++++++++++---
 pyslet/http/messages.py |  2 +-
 pyslet/http/params.py   |  2 +-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/grammar.py b/pyslet/http/grammar.py
index 78c09d8..48b573b 100755
--- a/pyslet/http/grammar.py
+++ b/pyslet/http/grammar.py
@@ -211,8 +211,9 @@ def format_parameters(parameters):
         format.append(b'; ')
         p, v = parameters[k]
         format.append(p.encode('ascii'))
-        format.append(b'=')
-        format.append(quote_string(v, force=False))
+        if v is not None:
+            format.append(b'=')
+            format.append(quote_string(v, force=False))
     return b''.join(format)
 
 
@@ -848,7 +849,8 @@ class WordParser(ParserMixin):
         return self.parse_separator(SP)
 
     def parse_parameters(self, parameters, ignore_allsp=True,
-                         case_sensitive=False, qmode=None):
+                         case_sensitive=False, qmode=None,
+                         optional_value=False):
         """Parses a set of parameters
 
         parameters
@@ -872,6 +874,11 @@ class WordParser(ParserMixin):
             media-type parameters and Accept extension parameters.
             Defaults to None
 
+        optional_value
+            a boolean (defaults to False) which allows parameters with
+            no value, such as some chunk and Accept extensions.  These
+            are represented by the value None.
+
         Updates the parameters dictionary with the new parameter
         definitions. The key in the dictionary is the parameter name
         (converted to lower case if parameters are being dealt with case
@@ -903,6 +910,9 @@ class WordParser(ParserMixin):
                     raise BadSyntax
                 if ignore_allsp:
                     self.parse_sp()
+                if optional_value and not self.is_separator(EQUALS_SIGN):
+                    parameters[param_key] = (param_name, None)
+                    continue
                 self.require_separator(EQUALS_SIGN, "parameter")
                 if ignore_allsp:
                     self.parse_sp()
diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 138e582..60691a4 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2845,7 +2845,7 @@ class HeaderParser(params.ParameterParser):
             if qvalue is None:
                 raise grammar.BadSyntax(
                     "Unrecognized q-value: %s" % repr(self.the_word))
-            self.parse_parameters(extensions)
+            self.parse_parameters(extensions, optional_value=True)
         else:
             qvalue = 1.0
         return AcceptItem(range, qvalue, extensions)
diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 0c42d3c..eb3675f 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -944,7 +944,7 @@ class ParameterParser(WordParser):
         self.parse_sp()
         size = self.require_hexinteger("chunk-size")
         extensions = {}
-        self.parse_parameters(extensions)
+        self.parse_parameters(extensions, optional_value=True)
         return Chunk(size, extensions)
 
     def require_media_type(self):
-- 
2.43.0


From 760720c9ca8fab47f3eef7caefdf8bf1dc05c9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:52 +0000
Subject: [PATCH 135/157] fix: media types, chunks, Allow and Accept-Ranges can
 be hashed

---
 pyslet/http/messages.py | 4 ++--
 pyslet/http/params.py   | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 60691a4..814c660 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2584,7 +2584,7 @@ class AcceptRanges(params.SortableParameter):
         return self._ranges.__iter__()
 
     def sortkey(self):
-        return self._sorted
+        return tuple(self._sorted)
 
 
 class Allow(params.SortableParameter):
@@ -2626,7 +2626,7 @@ class Allow(params.SortableParameter):
         return self._methods.__iter__()
 
     def sortkey(self):
-        return self._sorted
+        return tuple(self._sorted)
 
 
 class CacheControl(params.Parameter):
diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index eb3675f..9f22410 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -445,7 +445,9 @@ class Chunk(SortableParameter):
             self.extensions = self.bparameters(extensions)
         else:
             self.extensions = {}
-        self._cx = sorted((p[0], p[1][1]) for p in dict_items(self.extensions))
+        self._cx = tuple(
+            sorted((p[0], p[1][1]) if p[1][1] is not None else (p[0], )
+                   for p in dict_items(self.extensions)))
 
     @classmethod
     def from_str(cls, source):
@@ -501,7 +503,8 @@ class MediaType(SortableParameter):
             self.parameters = self.bparameters(parameters)
         else:
             self.parameters = {}
-        self._hp = sorted((p[0], p[1][1]) for p in dict_items(self.parameters))
+        self._hp = tuple(
+            sorted((p[0], p[1][1]) for p in dict_items(self.parameters)))
 
     @classmethod
     def from_str(cls, source):
-- 
2.43.0


From e5d8570a000273971f4a1e7c8a9bc0f9441efabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:52 +0000
Subject: [PATCH 136/157] fix: parsing of authentication challenges and lists
 of them

---
 pyslet/http/auth.py | 45 ++++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index 33d9780..91252fa 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -332,24 +332,39 @@ class AuthorizationParser(ParameterParser):
         auth_scheme = self.require_token("auth scheme").decode('ascii')
         params = []
         self.parse_sp()
-        while self.the_word is not None:
-            param_name = self.parse_token().decode('ascii')
-            if param_name is not None:
-                self.parse_sp()
-                self.require_separator(EQUALS_SIGN)
-                self.parse_sp()
-                if self.is_token():
-                    param_value = self.parse_token()
-                    forceq = False
-                else:
-                    param_value = self.require_production(
-                        self.parse_quoted_string(), "auth-param value")
-                    forceq = True
-                params.append((param_name, param_value, forceq))
+        while self.is_token():
+            param_name = self.require_token("auth-param").decode('ascii')
+            self.parse_sp()
+            self.require_separator(EQUALS_SIGN, "auth-param")
+            self.parse_sp()
+            if self.is_token():
+                param_value = self.parse_token()
+                forceq = False
+            else:
+                param_value = self.require_production(
+                    self.parse_quoted_string(), "auth-param value")
+                forceq = True
+            params.append((param_name, param_value, forceq))
+            savepos = self.pos
             self.parse_sp()
             if not self.parse_separator(COMMA):
                 break
+            self.parse_sp()
+            if not self._match_auth_param():
+                # the comma separates this challenge from the next one
+                self.setpos(savepos)
+                break
         if auth_scheme.lower() == "basic":
             return BasicChallenge(*params)
         else:
-            return Challenge(*params)
+            return Challenge(auth_scheme, *params)
+
+    def _match_auth_param(self):
+        # True if the next words are a name and an equals sign
+        savepos = self.pos
+        result = False
+        if self.parse_token() is not None:
+            self.parse_sp()
+            result = self.is_separator(EQUALS_SIGN)
+        self.setpos(savepos)
+        return result
-- 
2.43.0


From f5e305cc48f470bb8a6fc84665b1743e23ee04e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:52 +0000
Subject: [PATCH 137/157] fix: Basic credentials with a colon in the password

---
 pyslet/http/auth.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index 91252fa..7e20d13 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -221,7 +221,8 @@ class BasicCredentials(Credentials):
         self.path_prefixes = []
 
     def set_basic_credentials(self, basic_credentials):
-        credentials = base64.b64decode(basic_credentials).split(b':')
+        # only the first colon separates, passwords may contain them
+        credentials = base64.b64decode(basic_credentials).split(b':', 1)
         if len(credentials) == 2:
             self.userid = credentials[0].decode('iso-8859-1')
             self.password = credentials[1].decode('iso-8859-1')
@@ -231,7 +232,7 @@ class BasicCredentials(Credentials):
     def match(self, challenge=None, url=None):
         if challenge is not None:
             # must match the challenge
-            if not super(BasicCredentials, self).match(challenge):
+            if not self.match_challenge(challenge):
                 return False
         if url is not None:
             # must match the url
-- 
2.43.0


From 4ce824d13271014ea74e530471f33d365307e7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:05 +0000
Subject: [PATCH 138/157] fix: parsing of Cache-Control

---
 pyslet/http/messages.py | 45 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 814c660..1580e0f 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2672,7 +2672,7 @@ class CacheControl(params.Parameter):
     def from_str(cls, source):
         """Create a Cache-Control value from a *source* string."""
         p = HeaderParser(source)
-        cc = p.ParseCacheControl()
+        cc = p.require_cache_control()
         p.require_end("Cache-Control header")
         return cc
 
@@ -2690,7 +2690,7 @@ class CacheControl(params.Parameter):
             else:
                 result.append(b"%s=%s" % (
                               d, grammar.quote_string(
-                                  str(v).encode('ascii'), force=False)))
+                                  str(v).encode('iso-8859-1'), force=False)))
         return b", ".join(result)
 
     def __len__(self):
@@ -2951,6 +2951,47 @@ class HeaderParser(params.ParameterParser):
                 "Expected digits or * for instance-length")
         return ContentRange(first_byte, last_byte, total_len)
 
+    def require_cache_control(self):
+        """Parses a Cache-Control header value
+
+        Returns a :py:class:`CacheControl` instance, raises BadSyntax if
+        no directive was found."""
+        directives = []
+        while True:
+            self.parse_sp()
+            if self.is_token():
+                directive = self.require_token().decode('ascii')
+                self.parse_sp()
+                if self.parse_separator(EQUALS_SIGN):
+                    self.parse_sp()
+                    directives.append(
+                        (directive, self._require_directive_value()))
+                else:
+                    directives.append(directive)
+                self.parse_sp()
+            if not self.parse_separator(COMMA):
+                break
+        if not directives:
+            self.parser_error("cache-directive")
+        return CacheControl(*directives)
+
+    def _require_directive_value(self):
+        if self.is_integer():
+            return self.parse_integer()
+        elif self.is_token():
+            return self.parse_token().decode('ascii')
+        value = self.require_production(
+            self.parse_quoted_string(), "cache-directive value")
+        try:
+            p = HeaderParser(value)
+            result = tuple(p.parse_tokenlist())
+            p.require_end()
+            if result:
+                return result
+        except ValueError:
+            pass
+        return value.decode('iso-8859-1')
+
     def require_product_token_list(self):
         """Parses a list of product tokens
 
-- 
2.43.0


From 3d9791869f0be563585a85d28e19828f0cc9e3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:05 +0000
Subject: [PATCH 139/157] fix: AcceptLanguageList.select_token when nothing is
 acceptable

---
 pyslet/http/messages.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 1580e0f..4fe5e85 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2518,8 +2518,9 @@ class AcceptLanguageList(AcceptTokenList):
 
     def select_token(self, token_list):
         """Remapped to :py:meth:`select_language`"""
-        return str(self.select_language(
-                   list(params.LanguageTag.from_str(t) for t in token_list)))
+        match = self.select_language(
+            list(params.LanguageTag.from_str(t) for t in token_list))
+        return str(match) if match is not None else None
 
     def select_language(self, lang_list):
         bestmatch = None
-- 
2.43.0


From de7b8b3faced24a13b4265ff8928b44d8c8208e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:15 +0000
Subject: [PATCH 140/157] fix: repr of entity tags

---
 pyslet/http/params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 9f22410..7fdc050 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -780,7 +780,7 @@ class EntityTag(SortableParameter):
 
     def __repr__(self):
         return ("EntityTag(%s,%s)" %
-                (repr(self.tag), "True" if self.week else "False"))
+                (repr(self.tag), "True" if self.weak else "False"))
 
     def sortkey(self):
         return (self.tag, self.weak)
-- 
2.43.0


From a20c402605f6e31936da466a8979edc2ff9be524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:15 +0000
Subject: [PATCH 141/157] fix: impossible HTTP dates are syntax errors

---
 pyslet/http/params.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 7fdc050..6e0b65a 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -907,11 +907,14 @@ class ParameterParser(WordParser):
                 century = 20
             else:
                 century = 19
-        tp = FullDate(
-            date=iso.Date(century=century, year=year, month=month + 1,
-                          day=day),
-            time=iso.Time(hour=hour, minute=minute, second=second,
-                          zdirection=0))
+        try:
+            tp = FullDate(
+                date=iso.Date(century=century, year=year, month=month + 1,
+                              day=day),
+                time=iso.Time(hour=hour, minute=minute, second=second,
+                              zdirection=0))
+        except iso.DateTimeError:
+            self.parser_error("valid date and time")
         d1, d2, d3, d4, dow = tp.date.get_week_day()
         if dow != dayofweek + 1:
             self.parser_error("matching day-of-week")
-- 
2.43.0


From 9a599a49d6ce8b686118de364c5acc7caf007d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:59 +0000
Subject: [PATCH 142/157] fix: HTTP dates in the week of a new century

---
 pyslet/http/params.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 6e0b65a..d6f18ec 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -348,7 +348,8 @@ class FullDate(Parameter, iso.TimePoint):
         z = self.shift_zone(0)
         (century, year, month, day,
          hour, minute, second) = z.get_calendar_time_point()
-        century, decade, dyear, week, dayofweek = z.date.get_week_day()
+        # the week date may be in a different year, or even century
+        dayofweek = z.date.get_week_day()[4]
         return b"%s, %02i %s %04i %02i:%02i:%02i GMT" % (
             ParameterParser.wkday[dayofweek - 1],
             day,
-- 
2.43.0


From e7a8e42ffd5af4fda57f2ce7dfe60e1bd0069d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:59 +0000
Subject: [PATCH 143/157] fix: dispatching tries every matching path pattern
 before giving up

A path could be answered with 404, or by a less specific wildcard, when
the first named match led nowhere
---
 pyslet/wsgi.py | 50 ++++++++++++++++++++------------------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index c9ccc3a..84a061a 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -497,6 +497,23 @@ class DispatchNode(object):
         self._wildcard = None
         self._nodes = {}
 
+    def _find_method(self, path, pos):
+        """Returns the method for path[pos:], None if there isn't one
+
+        Named matches are tried before wildcards and a trailing wildcard
+        is used only if there is no more specific match."""
+        if pos >= len(path):
+            if self._handler is not None:
+                return self._handler
+            return self._wildcard
+        for p in (path[pos], '*'):
+            node = self._nodes.get(p, None)
+            if node is not None:
+                method = node._find_method(path, pos + 1)
+                if method is not None:
+                    return method
+        return self._wildcard
+
 
 class WSGIApp(DispatchNode):
 
@@ -920,36 +937,9 @@ class WSGIApp(DispatchNode):
             if not path:
                 # empty path
                 path = ['']
-            i = 0
-            node = self
-            wildcard = None
-            stack = []
-            while i < len(path):
-                p = path[i]
-                old_node = node
-                wild_node = old_node._nodes.get('*', None)
-                node = old_node._nodes.get(p, None)
-                if node:
-                    if wild_node:
-                        # this is a fall-back node, push it
-                        stack.append((i, wild_node, wildcard))
-                elif wild_node:
-                    node = wild_node
-                elif wildcard:
-                    # if there is an active wildcard, use it
-                    break
-                elif stack:
-                    i, node, wildcard = stack.pop()
-                else:
-                    break
-                if node._wildcard is not None:
-                    wildcard = node._wildcard
-                i += 1
-            if node and node._handler is not None:
-                return node._handler(context)
-            if wildcard:
-                return wildcard(context)
-            # we didn't find a handler
+            method = self._find_method(path, 0)
+            if method is not None:
+                return method(context)
             return self.error_page(context, 404)
         except MethodNotAllowed:
             return self.error_page(context, 405)
-- 
2.43.0


From 199f2e9a5524a0af67bef9dda2e81b26e2708593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:28 +0000
Subject: [PATCH 144/157] fix: static paths that are not ASCII are not found

---
 pyslet/wsgi.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 84a061a..70a4955 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -972,6 +972,11 @@ class WSGIApp(DispatchNode):
         target_path = self.static_files
         if target_path is None:
             raise PageNotFound
+        try:
+            context.environ['PATH_INFO'].encode('ascii')
+        except UnicodeError:
+            # can't match the label syntax
+            raise PageNotFound
         ext = ''
         pleft = len(path)
         for p in path:
-- 
2.43.0


From 20133b5077785b5c387d8bab85ba9414300a6077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:28 +0000
Subject: [PATCH 145/157] fix: AES application keys can sign messages

---
 pyslet/wsgi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 70a4955..f21171b 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1510,6 +1510,9 @@ class AESCipher(object):
         cipher = AES.new(self.key, AES.MODE_CFB, iv)
         return cipher.decrypt(data[AES.block_size:])
 
+    def hash(self, data):
+        return sha256(data + self.key).digest()
+
 
 class AppCipher(object):
 
-- 
2.43.0


From e9addacfb3f1af8da9a5f68512b69a567ffb2092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:28 +0000
Subject: [PATCH 146/157] fix: a signature is checked against an empty message
 too

---
 pyslet/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index f21171b..2790230 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1788,7 +1788,7 @@ class AppCipher(object):
             hash = binascii.unhexlify(hash)
             if smessage:
                 smessage = unescape_data(smessage)
-                if message:
+                if message is not None:
                     # must match exactly!
                     if message != smessage:
                         raise ValueError
-- 
2.43.0


From 02cfb2d7df0d46ef1d8300939340288538869f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:54 +0000
Subject: [PATCH 147/157] fix: an application key that takes over later finds
 the current key

---
 pyslet/wsgi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 2790230..cf17915 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1571,7 +1571,7 @@ class AppCipher(object):
                 t = edm.EDMValue.from_type(edm.SimpleType.DateTime)
                 t.set_from_value(time.time())
                 filter = odata.CommonExpression.from_str(
-                    "Expires gte :t", {'t': t})
+                    "Expires ge :t", {'t': t})
                 keys.set_filter(filter)
                 # Only interested in keys that haven't expired
                 old_keys = keys.values()
@@ -1579,7 +1579,7 @@ class AppCipher(object):
                     raise RuntimeError("AppCipher: no current key")
                 old_key = old_keys[0]
                 self.old_num = old_key['KeyNum'].value
-                self.old_key = self.decrypt(old_key['KeyString'])
+                self.old_key = self.decrypt(old_key['KeyString'].value)
                 self.old_expires = when.get_unixtime()
                 self.ciphers[self.old_num] = self.new_cipher(self.old_key)
         else:
-- 
2.43.0


From d01c75199c16dd828dc2b7ed7c9a0b15a3e9891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:54 +0000
Subject: [PATCH 148/157] fix: signatures made with unknown keys are refused

---
 pyslet/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index cf17915..495b375 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1802,7 +1802,7 @@ class AppCipher(object):
                     return message
                 else:
                     raise ValueError
-        except TypeError:
+        except (TypeError, RuntimeError):
             raise ValueError
 
     def ascii_sign(self, message):
-- 
2.43.0


From 23c5a4f7abcca439ce84ac8410a847675df29e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:04 +0000
Subject: [PATCH 149/157] fix: the cookie test refuses invalid session cookies
 with status 400

---
 pyslet/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 495b375..f22641f 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -2337,7 +2337,7 @@ class SessionApp(WSGIDataApp):
                            "cookie tampering detected\n"
                            "cookie=%s\nUserAgent: %s",
                            context.environ.get('PATH_INFO', ''),
-                           cmsg, ua)
+                           cmsg_signed, ua)
             self.clear_session_cookie(context)
             return self.error_page(context, 400)
         if csession.sid != qsession.sid or csession.established:
-- 
2.43.0


From dc0e7daa4fb813cb55450173d1ab1722a4febacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:04 +0000
Subject: [PATCH 150/157] fix: request URLs have the octets of paths that are
 not ASCII

---
 pyslet/wsgi.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index f22641f..741f4f6 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -230,6 +230,13 @@ class WSGIContext(object):
         return self.start_response_method(
             "%i %s" % (self.status, self.status_message), self.headers)
 
+    def _get_quoted(self, name):
+        # PEP 3333: a character string contains one octet per character
+        value = self.environ.get(name, '')
+        if is_unicode(value):
+            value = value.encode('iso-8859-1')
+        return urlquote(value)
+
     def get_app_root(self):
         """Returns the root of this application
 
@@ -257,7 +264,7 @@ class WSGIContext(object):
         for the above example.  This is preferable to using absolute
         paths which would strip away the SCRIPT_NAME prefix when used."""
         url = [self._canonical_root]
-        script = urlquote(self.environ.get('SCRIPT_NAME', ''))
+        script = self._get_quoted('SCRIPT_NAME')
         if not script:
             url.append('/')
         else:
@@ -293,8 +300,8 @@ class WSGIContext(object):
         respond on the service script's URL without a slash but generate
         incorrect relative links to the contained feeds as a result."""
         url = [self._canonical_root]
-        url.append(urlquote(self.environ.get('SCRIPT_NAME', '')))
-        url.append(urlquote(self.environ.get('PATH_INFO', '')))
+        url.append(self._get_quoted('SCRIPT_NAME'))
+        url.append(self._get_quoted('PATH_INFO'))
         query = self.environ.get('QUERY_STRING', '')
         if query:
             url += ['?', query]
-- 
2.43.0


From 9562ec4404c310ec1d18b119c98c5847ac29763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:59 +0000
Subject: [PATCH 151/157] fix: the default metadata has the expiry times of
 application keys

Changing the key raised KeyError
---
 pyslet/wsgi_metadata.xml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/wsgi_metadata.xml b/pyslet/wsgi_metadata.xml
index 9a8261d..7e4e013 100755
--- a/pyslet/wsgi_metadata.xml
+++ b/pyslet/wsgi_metadata.xml
@@ -16,6 +16,8 @@
                 <Property Name="KeyNum" Nullable="false" Type="Edm.Int32"/>
                 <Property Name="KeyString" Nullable="false"
                     Type="Edm.String" MaxLength="256" Unicode="false"/>
+                <Property Name="Expires" Nullable="false"
+                    Type="Edm.DateTime" Precision="0"/>
             </EntityType>
         </Schema>
     </edmx:DataServices>
-- 
2.43.0


From 49832b12fcf3cfe4a121f26a24d20072c6a0f2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:12 +0000
Subject: [PATCH 152/157] fix: launches can be read from the content of a
 request

---
 pyslet/imsbltiv1p0.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 2f49eef..fbd2bea 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -21,6 +21,7 @@ from pyslet.odata2 import sqlds as sql
 from pyslet.py2 import (
     byte_value,
     dict_items,
+    force_ascii,
     dict_keys,
     force_bytes,
     long2,
@@ -754,7 +755,7 @@ class ToolProvider(oauth.RequestValidator, MigratedClass):
             if not result:
                 raise LTIAuthenticationError
             # grab the parameters as a dictionary from body_string
-            parameters = parse_qs(body_string)
+            parameters = parse_qs(force_ascii(body_string))
             for n, v in dict_items(parameters):
                 parameters[n] = ','.join(v)
             # the consumer key is in the oauth_consumer_key param
-- 
2.43.0


From 6976d7abb7e16c8c151b5c2f6aa82a1881ad7573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:12 +0000
Subject: [PATCH 153/157] fix: launching in a new window merges the visits of
 the sessions

---
 pyslet/imsbltiv1p0.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index fbd2bea..698a08b 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -1112,7 +1112,7 @@ class ToolProviderApp(wsgi.SessionApp):
         """Overridden to update the Session ID in any associated visits"""
         with self.container['Visits'].open() as collection:
             sid = edm.EDMValue.from_type(edm.SimpleType.String)
-            sid.set_from_value(merge_session.session.sid)
+            sid.set_from_value(merge_session.sid)
             filter = odata.CommonExpression.from_str(
                 "Session eq :sid", {'sid': sid})
             collection.set_filter(filter)
@@ -1149,7 +1149,7 @@ class ToolProviderApp(wsgi.SessionApp):
                             collection.update_entity(old_visit)
                 merge_visit['Session'].set_from_value(context.session.sid)
                 # just update the Session field
-                merge_visit.set_expand(None, {'Session': None})
+                merge_visit.expand(None, {'Session': None})
                 collection.update_entity(merge_visit)
 
     def load_visit(self, context):
-- 
2.43.0


From e77739ccd3d4f3bf88598e8db1579f9f149b9131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:22 +0000
Subject: [PATCH 154/157] fix: launches with unrecognised roles give no
 permissions

---
 pyslet/imsbltiv1p0.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 698a08b..f6abeca 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -972,6 +972,11 @@ class ToolProviderApp(wsgi.SessionApp):
         integers are combined to provide an overall permissions
         integer."""
         logging.debug("Launch role: %s", str(role))
+        try:
+            split_role(role)
+        except ValueError:
+            # not an LTI role
+            return 0
         if is_subrole(role, ROLE_HANDLES['Instructor']):
             return (cls.READ_PERMISSION | cls.WRITE_PERMISSION |
                     cls.CONFIGURE_PERMISSION)
-- 
2.43.0


From 6797369f2916cd0569e6728da8482c4f7e81980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:22 +0000
Subject: [PATCH 155/157] fix: unrecognised context types are ignored on launch

---
 pyslet/imsbltiv1p0.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index f6abeca..178b031 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -887,7 +887,8 @@ class ToolProviderApp(wsgi.SessionApp):
             gtype_uri = URI.from_octets(stype)
             if not gtype_uri.is_absolute():
                 gtype_uri = CONTEXT_TYPE_HANDLES.get(stype, None)
-            gtypes.append(gtype_uri)
+            if gtype_uri is not None:
+                gtypes.append(gtype_uri)
         group_title = context.parameters.get('context_title', '')
         group_label = context.parameters.get('context_label', '')
         context.group = context.consumer.get_context(
-- 
2.43.0


From ece43dc0186236b9dc1d39fce1da368394a9fc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:07 +0000
Subject: [PATCH 156/157] fix: merging visits replaces older visits in the
 session joined

---
 pyslet/imsbltiv1p0.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 178b031..1b5e08c 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -1128,6 +1128,7 @@ class ToolProviderApp(wsgi.SessionApp):
             # there should be only one visit in this session if there
             # are more then something strange is going on
             sid.set_from_value(context.session.sid)
+            collection.set_filter(filter)
             for merge_visit in merge_visits:
                 merge_resource = merge_visit['Resource'].get_entity()
                 merge_consumer = merge_resource['Consumer'].get_entity()
-- 
2.43.0


From 3491d8a1ec78a76da60f039a4570db659f3e8e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:07 +0000
Subject: [PATCH 157/157] fix: comments are skipped when loading consumers from
 a file

---
 pyslet/imsbltiv1p0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 1b5e08c..440244e 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -1410,7 +1410,7 @@ class BLTIToolProvider(ToolProvider):
         Lines starting with a '#' are ignored as comments."""
         lines = f.readlines()
         for line in lines:
-            if line and line[0] == '#':
+            if line[:1] == b'#':
                 continue
             fields = line.split()
             if len(fields) >= 2:
-- 
2.43.0

