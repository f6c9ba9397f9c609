From 9df7a0c299377cbee4bda8f211933c8bd9b79890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 01/10] fix: include the last row group in stripe and file
 statistics

---
 src/writer/stripe.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/writer/stripe.rs b/src/writer/stripe.rs
index 15f51a3..bd82d80 100644
--- a/src/writer/stripe.rs
+++ b/src/writer/stripe.rs
@@ -81,10 +81,11 @@ impl Stripe {
         if self.num_rows == 0 { return Ok(()) }
         let mut stream_infos: Vec<StreamInfo> = Vec::new();
         let mut statistics: Vec<Statistics> = Vec::new();
-        self.data.statistics(&mut statistics);
 
         let index_start_pos = out.pos();
         self.data.write_index_streams(out, &mut stream_infos)?;
+        // Writing the index closes the last row group, so the statistics are only complete now.
+        self.data.statistics(&mut statistics);
 
         let data_start_pos = out.pos();
         self.data.write_data_streams(out, &mut stream_infos)?;
-- 
2.43.0


From 05d8d40aa03ee3e06a4f851cedbd1d2ec57c1f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 02/10] fix: do not lose the high bits of encoded timestamp
 nanoseconds

---
 src/writer/data/timestamp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/data/timestamp.rs b/src/writer/data/timestamp.rs
index 465b2b6..8063f10 100644
--- a/src/writer/data/timestamp.rs
+++ b/src/writer/data/timestamp.rs
@@ -127,7 +127,7 @@ impl TimestampData {
 
         self.streams.present.write(true);
         self.streams.seconds.write(sec);
-        self.streams.nanos.write((nanos_val << 3 | trailing_zeros) as u64);
+        self.streams.nanos.write((nanos_val as u64) << 3 | trailing_zeros);
         self.row_group_stats.update(sec * 1000 + (nanos / 1000000) as i64);
         self.check_row_group();
     }
-- 
2.43.0


From 831e9fb168663510166df922dc588f77837c27eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 03/10] fix: record timestamp statistics relative to the Unix
 epoch

---
 src/writer/data/timestamp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/data/timestamp.rs b/src/writer/data/timestamp.rs
index 8063f10..0810559 100644
--- a/src/writer/data/timestamp.rs
+++ b/src/writer/data/timestamp.rs
@@ -128,7 +128,7 @@ impl TimestampData {
         self.streams.present.write(true);
         self.streams.seconds.write(sec);
         self.streams.nanos.write((nanos_val as u64) << 3 | trailing_zeros);
-        self.row_group_stats.update(sec * 1000 + (nanos / 1000000) as i64);
+        self.row_group_stats.update((sec - Self::EPOCH_SECONDS) * 1000 + (nanos / 1000000) as i64);
         self.check_row_group();
     }
 }
-- 
2.43.0


From cd079b68331f73135a3ff8dc3376c1196f3851f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 04/10] fix: split writes larger than a compression block into
 several blocks

---
 src/writer/compression.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/writer/compression.rs b/src/writer/compression.rs
index bc52cf7..a3307b7 100644
--- a/src/writer/compression.rs
+++ b/src/writer/compression.rs
@@ -178,15 +178,16 @@ impl CompressionStream {
     #[inline(always)]
     pub fn write_bytes(&mut self, bytes: &[u8]) {
         if let Some(_) = &mut self.compressor {
-            if self.buf.len() + bytes.len() > self.buf.capacity() {
-                let i = self.buf.capacity() - self.buf.len();
+            // A block must never hold more than the declared block size.
+            let block_size = self.buf.capacity().max(1);
+            let mut bytes = bytes;
+            while self.buf.len() + bytes.len() > block_size {
+                let i = block_size - self.buf.len();
                 self.buf.write_bytes(&bytes[..i]);
                 self.finish_block();
-                self.buf.resize(0);
-                self.buf.write_bytes(&bytes[i..]);
-            } else {
-                self.buf.write_bytes(bytes);
+                bytes = &bytes[i..];
             }
+            self.buf.write_bytes(bytes);
         } else {
             self.buf.write_bytes(bytes);
         }
-- 
2.43.0


From b3b1cb1e7a83cfd29babf2906a4a1bb23a86be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 05/10] fix: do not ignore short writes of the header and the
 postscript length

---
 src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index bd7aa2d..5dc7ec5 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -107,14 +107,14 @@ impl<W: Write> Writer<W> {
 
         let end_pos = self.inner.pos();
         let postscript_length = (end_pos - postscript_start_pos) as u8;
-        self.inner.write(slice::from_ref(&postscript_length))?;
+        self.inner.write_all(slice::from_ref(&postscript_length))?;
 
         self.inner.flush()?;
         Ok(self.inner.into_inner())
     }
 
     fn write_header(&mut self) -> Result<()> {
-        self.inner.write(b"ORC")?;
+        self.inner.write_all(b"ORC")?;
         Ok(())
     }
 
-- 
2.43.0


From aac2b7043ebfdb5607a42e591524656232b01a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 06/10] fix: do not complete a file after a failed write

---
 src/writer/count_write.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/writer/count_write.rs b/src/writer/count_write.rs
index 45cbdd2..e479993 100644
--- a/src/writer/count_write.rs
+++ b/src/writer/count_write.rs
@@ -1,8 +1,10 @@
-use std::io::{Write, Result};
+use std::io::{Error, ErrorKind, Write, Result};
 
 pub struct CountWrite<W: Write> {
     pub inner: W,
     pub count: usize,
+    // Set once the inner writer has failed: what it holds is then incomplete for good.
+    failed: bool,
 }
 
 impl<W: Write> CountWrite<W> {
@@ -10,6 +12,7 @@ impl<W: Write> CountWrite<W> {
         CountWrite {
             inner: inner,
             count: 0,
+            failed: false,
         }
     }
 
@@ -20,16 +23,34 @@ impl<W: Write> CountWrite<W> {
     pub fn pos(&self) -> usize {
         self.count
     }
+
+    fn check_failed(&self) -> Result<()> {
+        if self.failed {
+            Err(Error::new(ErrorKind::Other, "an earlier write failed"))
+        } else {
+            Ok(())
+        }
+    }
 }
 
 impl<W: Write> Write for CountWrite<W> {
     fn write(&mut self, buf: &[u8]) -> Result<usize> {
-        let size = self.inner.write(buf)?;
-        self.count += size;
-        Ok(size)
+        self.check_failed()?;
+        match self.inner.write(buf) {
+            Ok(size) => {
+                self.failed = size == 0 && !buf.is_empty();
+                self.count += size;
+                Ok(size)
+            }
+            Err(e) => {
+                self.failed = e.kind() != ErrorKind::Interrupted;
+                Err(e)
+            }
+        }
     }
 
     fn flush(&mut self) -> Result<()> {
+        self.check_failed()?;
         self.inner.flush()
     }
 }
\ No newline at end of file
-- 
2.43.0


From 9fac9d1acbfe27c969aa716ec6a8a1618351f8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 07/10] fix: refuse to finish with values that belong to no
 batch

---
 src/writer/stripe.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/writer/stripe.rs b/src/writer/stripe.rs
index bd82d80..0487354 100644
--- a/src/writer/stripe.rs
+++ b/src/writer/stripe.rs
@@ -78,6 +78,8 @@ impl Stripe {
     }
 
     pub fn finish<W: Write>(&mut self, out: &mut CountWrite<W>, stripe_infos_out: &mut Vec<StripeInfo>) -> Result<()> {
+        // Values that no batch has accounted for would be lost or corrupt the stripe.
+        self.data.verify_row_count(self.num_rows);
         if self.num_rows == 0 { return Ok(()) }
         let mut stream_infos: Vec<StreamInfo> = Vec::new();
         let mut statistics: Vec<Statistics> = Vec::new();
-- 
2.43.0


From 4b45c13b8d5dce6872b596d42b0660a6507e5f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 08/10] fix: format the smallest 128-bit decimal sum without
 overflow

---
 src/writer/statistics/decimal.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/writer/statistics/decimal.rs b/src/writer/statistics/decimal.rs
index cda4aab..58d8e1a 100644
--- a/src/writer/statistics/decimal.rs
+++ b/src/writer/statistics/decimal.rs
@@ -67,13 +67,13 @@ impl DecimalStatistics {
         merge_sum(&mut self.sum, Some(x));
     }
 
-    pub fn format(&self, mut val: i128) -> String {
+    pub fn format(&self, val: i128) -> String {
         let mut out = String::new();
         if val < 0 {
             out.push_str("-");
-            val = -val;
         }
-        let modulus = 10i128.pow(self.scale);
+        let val = val.unsigned_abs();
+        let modulus = 10u128.pow(self.scale);
         let quo = val / modulus;
         let rem = val % modulus;
         write!(&mut out, "{}", quo).unwrap();
-- 
2.43.0


From 698383bda5654ce01e9bbc7cc143d44bbb741b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 09/10] fix: refuse list and map lengths whose total wraps
 around

---
 src/writer/data/list.rs | 3 ++-
 src/writer/data/map.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/writer/data/list.rs b/src/writer/data/list.rs
index c106356..50a3f06 100644
--- a/src/writer/data/list.rs
+++ b/src/writer/data/list.rs
@@ -104,7 +104,8 @@ impl ListData {
     pub fn write(&mut self, len: u64) {
         self.streams.present.write(true);
         self.streams.lengths.write(len);
-        self.num_child_values += len;
+        self.num_child_values = self.num_child_values.checked_add(len)
+            .expect("the total number of child values does not fit in 64 bits");
         self.row_group_stats.update();
         self.check_row_group();
     }
diff --git a/src/writer/data/map.rs b/src/writer/data/map.rs
index ca128fd..bb2d43f 100644
--- a/src/writer/data/map.rs
+++ b/src/writer/data/map.rs
@@ -115,7 +115,8 @@ impl MapData {
     pub fn write(&mut self, len: u64) {
         self.streams.present.write(true);
         self.streams.lengths.write(len);
-        self.num_child_values += len;
+        self.num_child_values = self.num_child_values.checked_add(len)
+            .expect("the total number of child values does not fit in 64 bits");
         self.row_group_stats.update();
         self.check_row_group();
     }
-- 
2.43.0


From bd9d3f8a4a820e7cbd807e4ca90c3686928dc388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 10/10] fix: record date statistics for date columns

---
 src/writer/data/long.rs  | 11 +++++++++--
 src/writer/statistics.rs | 17 ++++++++++++-----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/writer/data/long.rs b/src/writer/data/long.rs
index e9e37a4..d0a0809 100644
--- a/src/writer/data/long.rs
+++ b/src/writer/data/long.rs
@@ -103,6 +103,13 @@ impl LongData {
     pub fn schema(&self) -> &Schema {
         &self.schema
     }
+
+    fn wrap_statistics(&self, stats: LongStatistics) -> Statistics {
+        match self.schema {
+            Schema::Date => Statistics::Date(stats),
+            _ => Statistics::Long(stats),
+        }
+    }
 }
 
 impl GenericData for LongData {
@@ -125,7 +132,7 @@ impl BaseData for LongData {
             let mut positions: Vec<u64> = Vec::new();
             entry.position.record(self.stripe_stats.has_null(), &mut positions);
             row_index_entry.set_positions(positions);
-            row_index_entry.set_statistics(Statistics::Long(entry.stats).to_proto());
+            row_index_entry.set_statistics(self.wrap_statistics(entry.stats).to_proto());
             row_index_entries.push(row_index_entry);
         }
         write_index(row_index_entries, self.column_id(), &self.config.compression, out, stream_infos_out)?;
@@ -163,7 +170,7 @@ impl BaseData for LongData {
     }
 
     fn statistics(&self, out: &mut Vec<Statistics>) {
-        out.push(Statistics::Long(self.stripe_stats));
+        out.push(self.wrap_statistics(self.stripe_stats));
     }
 
     fn estimated_size(&self) -> usize {
diff --git a/src/writer/statistics.rs b/src/writer/statistics.rs
index d3286ba..10bca21 100644
--- a/src/writer/statistics.rs
+++ b/src/writer/statistics.rs
@@ -24,6 +24,7 @@ mod binary;
 pub enum Statistics {
     Boolean(BooleanStatistics),
     Long(LongStatistics),
+    Date(LongStatistics),
     Double(DoubleStatistics),
     Decimal(DecimalStatistics),
     Timestamp(TimestampStatistics),
@@ -38,7 +39,7 @@ impl Statistics {
     }
 
     pub fn unwrap_long(&self) -> &LongStatistics { 
-        if let Statistics::Long(x) = self { x } else { panic!("invalid argument to unwrap_long"); }
+        if let Statistics::Long(x) | Statistics::Date(x) = self { x } else { panic!("invalid argument to unwrap_long"); }
     }
 
     pub fn unwrap_decimal(&self) -> &DecimalStatistics { 
@@ -82,6 +83,12 @@ impl Statistics {
                 if let Some(x) = long_statistics.sum { int_stat.set_sum(x); }
                 stat.set_intStatistics(int_stat);
             }
+            Statistics::Date(d) => {
+                let mut date_stat = orc_proto::DateStatistics::new();
+                if let Some(x) = d.min { date_stat.set_minimum(x as i32); }
+                if let Some(x) = d.max { date_stat.set_maximum(x as i32); }
+                stat.set_dateStatistics(date_stat);
+            }
             Statistics::Decimal(d) => {
                 let mut dec_stat = orc_proto::DecimalStatistics::new();
                 if let Some(x) = d.min { dec_stat.set_minimum(d.format(x)); }
@@ -124,7 +131,7 @@ impl BaseStatistics for Statistics {
     fn update_null(&mut self) {
         match self {
             Statistics::Boolean(x) => x.update_null(),
-            Statistics::Long(x) => x.update_null(),
+            Statistics::Long(x) | Statistics::Date(x) => x.update_null(),
             Statistics::Double(x) => x.update_null(),
             Statistics::Decimal(x) => x.update_null(),
             Statistics::Timestamp(x) => x.update_null(),
@@ -137,7 +144,7 @@ impl BaseStatistics for Statistics {
     fn num_values(&self) -> u64 {
         match self {
             Statistics::Boolean(x) => x.num_values(),
-            Statistics::Long(x) => x.num_values(),
+            Statistics::Long(x) | Statistics::Date(x) => x.num_values(),
             Statistics::Double(x) => x.num_values(),
             Statistics::Decimal(x) => x.num_values(),
             Statistics::Timestamp(x) => x.num_values(),
@@ -150,7 +157,7 @@ impl BaseStatistics for Statistics {
     fn num_present(&self) -> u64 {
         match self {
             Statistics::Boolean(x) => x.num_present(),
-            Statistics::Long(x) => x.num_present(),
+            Statistics::Long(x) | Statistics::Date(x) => x.num_present(),
             Statistics::Double(x) => x.num_present(),
             Statistics::Decimal(x) => x.num_present(),
             Statistics::Timestamp(x) => x.num_present(),
@@ -163,7 +170,7 @@ impl BaseStatistics for Statistics {
     fn merge(&mut self, rhs: &Statistics) {
         match self {
             Statistics::Boolean(x) => x.merge(rhs.unwrap_boolean()),
-            Statistics::Long(x) => x.merge(rhs.unwrap_long()),
+            Statistics::Long(x) | Statistics::Date(x) => x.merge(rhs.unwrap_long()),
             Statistics::Double(x) => x.merge(rhs.unwrap_double()),
             Statistics::Decimal(x) => x.merge(rhs.unwrap_decimal()),
             Statistics::Timestamp(x) => x.merge(rhs.unwrap_timestamp()),
-- 
2.43.0

