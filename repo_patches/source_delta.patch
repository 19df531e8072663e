From 6292f665db1c921add79c50dbb0bdfcda44a7425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 01/40] fix: feed rows of each source to the chain that
 processed its header

Sources were popped from the back while chain ids were assigned from the
front, so with several inputs the rows of the last source went through the
chain (and header) of the first one.
---
 src/driver/driver.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/driver/driver.rs b/src/driver/driver.rs
index ced20b7..21184a5 100644
--- a/src/driver/driver.rs
+++ b/src/driver/driver.rs
@@ -62,8 +62,8 @@ impl Driver {
 
     fn get_row_buffers(&mut self) -> CliResult<Vec<SourceRowBuffer>> {
         let mut row_buffers: Vec<SourceRowBuffer> = Vec::with_capacity(self.sources.len());
-        for i in 0..self.sources.len() {
-            let source = self.sources.pop().unwrap();
+        // source at index i feeds the chain with id i
+        for (i, source) in self.sources.drain(..).enumerate() {
             row_buffers.push(SourceRowBuffer::new(source, i, &self.timestamp_range)?);
         }
         Ok(row_buffers)
-- 
2.43.0


From 4238bc0ab2229706847e332fc7d3b5c1778a1be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 02/40] fix: handle sources that have no rows in the requested
 time range

An input with no rows inside [begin, end) (or no rows at all, like an empty
directory or a dc file with just a header) made the driver panic.
---
 src/driver/driver.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/driver/driver.rs b/src/driver/driver.rs
index 21184a5..0bdc5fe 100644
--- a/src/driver/driver.rs
+++ b/src/driver/driver.rs
@@ -35,6 +35,18 @@ impl Driver {
     fn drive(&mut self) -> CliResult<()> {
         let mut row_buffers = self.get_row_buffers()?;
 
+        // sources with no rows in range have nothing to process, but their chains still need a flush
+        let mut i = 0;
+        while i < row_buffers.len() {
+            if row_buffers[i].row().is_none() {
+                let chain_id = row_buffers[i].chain_id();
+                self.flush(chain_id, 0)?;
+                row_buffers.remove(i);
+            } else {
+                i += 1;
+            }
+        }
+
         // sort and output
         // all the sources are processed at the same time, but a row with min timestamp is output first
         let mut buffer_len = row_buffers.len();
-- 
2.43.0


From 23c45d51ce2c75865d66ea67938d748c0dfa3a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 03/40] fix: size the dc null bitset by the actual number of
 fields

The writer sized it for one field less, so files with 9, 17, 25... columns
got a bitset one byte too short and could not be read back, and headers
with no fields at all underflowed in both the writer and the reader.
---
 src/util/dc_util.rs  | 2 +-
 src/write/dc_sink.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/dc_util.rs b/src/util/dc_util.rs
index 96258c3..ccd0a5c 100644
--- a/src/util/dc_util.rs
+++ b/src/util/dc_util.rs
@@ -22,7 +22,7 @@ pub enum DisplayHint {
 }
 
 pub fn get_bitset_bytes(field_count: usize) -> usize {
-    1 + ((field_count - 1) / 8)
+    (field_count + 7) / 8
 }
 
 // map for field types
diff --git a/src/write/dc_sink.rs b/src/write/dc_sink.rs
index 04fdc09..9023fa6 100644
--- a/src/write/dc_sink.rs
+++ b/src/write/dc_sink.rs
@@ -128,7 +128,7 @@ impl DCSink {
 impl HeaderSink for DCSink {
     fn process_header(mut self: Box<Self>, header: &mut Header) -> CliResult<Box<dyn DataSink>> {
         Self::write_header(&mut self, header)?;
-        let bitset_bytes = dc_util::get_bitset_bytes(header.field_types().len() - 1);
+        let bitset_bytes = dc_util::get_bitset_bytes(header.field_types().len());
         self.bitset_bytes = bitset_bytes;
         Ok(self.boxed())
     }
-- 
2.43.0


From 35d971932b178e26b4ac5398d20d673955028245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 04/40] fix: report errors when reading the timestamp of a dc
 row

Any error there, including i/o errors, decompression errors and a timestamp
that was cut short, was treated as the end of data, silently dropping the
rest of the input.
---
 src/source/dc_source.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/source/dc_source.rs b/src/source/dc_source.rs
index 5df54da..46740d0 100644
--- a/src/source/dc_source.rs
+++ b/src/source/dc_source.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::io::{self, Read};
+use std::io::{self, BufRead, Read};
 use std::str;
 
 use byteorder::{BigEndian, ReadBytesExt};
@@ -95,10 +95,16 @@ impl<R: io::Read> DCSource<R> {
     }
 
     fn next_row(&mut self) -> CliResult<Option<Row>> {
-        match self.reader.read_u64::<BigEndian>() {
-            Ok(i) => self.current_row.timestamp = i,
-            Err(_e) => return Ok(None),
-        };
+        // it's the end of data only if there is nothing left to read where next row should start
+        loop {
+            match self.reader.fill_buf() {
+                Ok(buf) if buf.is_empty() => return Ok(None),
+                Ok(_) => break,
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e.into()),
+            }
+        }
+        self.current_row.timestamp = self.reader.read_u64::<BigEndian>()?;
 
         // bitset of null values
         let bitset_bytes = &mut self.bitset_bytes;
-- 
2.43.0


From 0982b20d81776a5aaf4fb23723ea97019fe2a27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 05/40] fix: report malformed dc input as an error

Unknown field types, strings that are not valid utf8, negative string sizes
and absurd field counts or string sizes panicked or tried to allocate many
gigabytes instead of being reported.
---
 src/source/dc_source.rs | 37 +++++++++++++++++++++----------------
 src/util/dc_util.rs     | 22 ++++++++++++++++------
 2 files changed, 37 insertions(+), 22 deletions(-)

diff --git a/src/source/dc_source.rs b/src/source/dc_source.rs
index 46740d0..914001b 100644
--- a/src/source/dc_source.rs
+++ b/src/source/dc_source.rs
@@ -1,6 +1,5 @@
 use std::collections::HashMap;
 use std::io::{self, BufRead, Read};
-use std::str;
 
 use byteorder::{BigEndian, ReadBytesExt};
 
@@ -52,12 +51,12 @@ impl<R: io::Read> DCSource<R> {
         let map_field_string = &FIELD_STRING_MAP_NAME;
         let field_count = reader.read_u32::<BigEndian>()? as usize;
         let bitset_byte_count = dc_util::get_bitset_bytes(field_count);
-        let bitset_bytes: Vec<u8> = vec![0 as u8; bitset_byte_count];
 
         // field descriptor (header)
-        let mut field_names: Vec<String> = Vec::with_capacity(field_count);
-        let mut field_types: Vec<FieldType> = Vec::with_capacity(field_count);
-        let mut field_values: Vec<FieldValue> = Vec::with_capacity(field_count);
+        // field count comes from the input, so don't trust it enough to allocate upfront
+        let mut field_names: Vec<String> = Vec::new();
+        let mut field_types: Vec<FieldType> = Vec::new();
+        let mut field_values: Vec<FieldValue> = Vec::new();
         for i in 0..field_count {
             let field_descriptor = dc_util::FieldDescriptor::new(&mut reader)?;
             let mut name = field_descriptor.get_name().to_string();
@@ -66,14 +65,18 @@ impl<R: io::Read> DCSource<R> {
                 name = format!("col_{}", i);
             }
             field_names.push(name);
-            field_types.push(
-                map_field_string
-                    .get(field_descriptor.get_type_string())
-                    .unwrap()
-                    .clone(),
-            );
+            match map_field_string.get(field_descriptor.get_type_string()) {
+                Some(field_type) => field_types.push(*field_type),
+                None => {
+                    return Err(Error::from(format!(
+                        "DCReader -- unknown field type - {}",
+                        field_descriptor.get_type_string()
+                    )))
+                }
+            }
             field_values.push(FieldValue::None);
         }
+        let bitset_bytes: Vec<u8> = vec![0 as u8; bitset_byte_count];
 
         // Header
         let header: Header = Header::new(field_names, field_types);
@@ -169,13 +172,15 @@ impl<R: io::Read> DCSource<R> {
         let data_size_short = reader.read_i16::<BigEndian>()?;
         let data_size = match data_size_short {
             -1 => reader.read_u32::<BigEndian>()?,
+            size if size < 0 => {
+                return Err(Error::from(format!(
+                    "DCReader -- invalid string size - {}",
+                    size
+                )))
+            }
             _ => data_size_short as u32,
         };
-        let mut string: Vec<u8> = vec![0; data_size as usize];
-        let string = string.as_mut_slice();
-        reader.read_exact(string)?;
-
-        Ok(str::from_utf8_mut(string).unwrap().to_string())
+        dc_util::read_string_bytes(reader, data_size)
     }
 }
 
diff --git a/src/util/dc_util.rs b/src/util/dc_util.rs
index ccd0a5c..8d9a20e 100644
--- a/src/util/dc_util.rs
+++ b/src/util/dc_util.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::io::{self, BufWriter, Write};
+use std::io::{self, BufWriter, Read, Write};
 use std::string::String;
 
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
@@ -105,11 +105,21 @@ impl FieldDescriptor {
 
     fn get_sized_string<R: io::BufRead>(mut rdr: R) -> CliResult<String> {
         let size = rdr.read_u32::<BigEndian>()?;
-        let mut string_bytes: Vec<u8> = Vec::with_capacity(size as usize);
-        for _i in 0..size as usize {
-            string_bytes.push(rdr.read_u8()?);
-        }
-        Ok(String::from_utf8(string_bytes).unwrap().to_string())
+        read_string_bytes(&mut rdr, size)
+    }
+}
+
+/// reads a utf8 string of given size in bytes;
+/// size comes from the input, so it's not trusted enough to allocate all of it upfront
+pub fn read_string_bytes<R: io::Read>(reader: R, size: u32) -> CliResult<String> {
+    let mut bytes: Vec<u8> = Vec::new();
+    reader.take(size as u64).read_to_end(&mut bytes)?;
+    if bytes.len() < size as usize {
+        return Err(Error::Io(io::Error::from(io::ErrorKind::UnexpectedEof)));
+    }
+    match String::from_utf8(bytes) {
+        Ok(string) => Ok(string),
+        Err(e) => Err(Error::from(format!("DCReader -- invalid string - {}", e))),
     }
 }
 
-- 
2.43.0


From 1f93dac8e6b541b60982c1fb59d10147f9fcd022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 06/40] fix: keep csv rows aligned with the header when field
 counts vary

Rows shorter than the first one silently kept values of the previous row in
the missing fields, and rows longer than the first one panicked. Missing
fields are now null and extra ones are an error; columns missing from the
header line get the default names.
---
 src/source/csv_source.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/source/csv_source.rs b/src/source/csv_source.rs
index 944b6a2..c4a1634 100644
--- a/src/source/csv_source.rs
+++ b/src/source/csv_source.rs
@@ -5,7 +5,7 @@ use csv::{self, Trim};
 use crate::chopper::chopper::Source;
 use crate::chopper::types::{FieldType, FieldValue, Header, Nanos, Row};
 use crate::cli::util::YesNoAuto;
-use crate::error::CliResult;
+use crate::error::{CliResult, Error};
 use crate::source::csv_configs::CSVInputConfig;
 use crate::source::csv_timestamp::{self, TimestampCol, TimestampFmt};
 use crate::util::csv_util;
@@ -61,7 +61,6 @@ impl CSVSource {
 
         // get first row
         let first_row: csv::StringRecord = reader.records().next().unwrap()?;
-        let field_count = first_row.len();
 
         // get field names if available
         let mut field_names: Vec<String> = Vec::new();
@@ -70,12 +69,12 @@ impl CSVSource {
             for i in header_record {
                 field_names.push(i.to_string());
             }
-        } else {
-            // if field name is not given, assign default name - "col_x"
-            for i in 0..field_count {
-                field_names.push(format!("col_{}", i));
-            }
         }
+        // if field name is not given, assign default name - "col_x"
+        for i in field_names.len()..first_row.len() {
+            field_names.push(format!("col_{}", i));
+        }
+        let field_count = field_names.len();
 
         // initialize next_row
         let timestamp: Nanos = 0;
@@ -114,9 +113,19 @@ impl CSVSource {
     }
 
     fn update_row(&mut self, next_record: csv::StringRecord) -> CliResult<()> {
-        for i in 0..next_record.len() {
-            self.next_row.field_values[i] =
-                FieldValue::String(next_record.get(i).unwrap().to_string());
+        let field_count = self.next_row.field_values.len();
+        if next_record.len() > field_count {
+            return Err(Error::from(format!(
+                "CSVSource -- row has more fields than expected; \
+                expected at most {} fields; found: {:?}",
+                field_count, next_record
+            )));
+        }
+        for i in 0..field_count {
+            self.next_row.field_values[i] = match next_record.get(i) {
+                Some(value) => FieldValue::String(value.to_string()),
+                None => FieldValue::None,
+            };
         }
 
         self.next_row.timestamp = csv_timestamp::get_timestamp(
-- 
2.43.0


From 9ee0f1daf09ced060fe5ce45f6df11bde9dd523f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 07/40] fix: accept csv inputs that have no data rows

An empty csv file, or one with just a header line, made chopper panic.
---
 src/source/csv_source.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/source/csv_source.rs b/src/source/csv_source.rs
index c4a1634..78c5bcf 100644
--- a/src/source/csv_source.rs
+++ b/src/source/csv_source.rs
@@ -7,7 +7,7 @@ use crate::chopper::types::{FieldType, FieldValue, Header, Nanos, Row};
 use crate::cli::util::YesNoAuto;
 use crate::error::{CliResult, Error};
 use crate::source::csv_configs::CSVInputConfig;
-use crate::source::csv_timestamp::{self, TimestampCol, TimestampFmt};
+use crate::source::csv_timestamp::{self, TimestampCol, TimestampFmt, TimestampUnits};
 use crate::util::csv_util;
 use crate::util::reader::{ChopperBufPreviewer, ChopperBufReader};
 use crate::util::tz::ChopperTz;
@@ -60,7 +60,10 @@ impl CSVSource {
             .from_reader(reader);
 
         // get first row
-        let first_row: csv::StringRecord = reader.records().next().unwrap()?;
+        let (first_row, has_next_row): (csv::StringRecord, bool) = match reader.records().next() {
+            Some(r) => (r?, true),
+            None => (csv::StringRecord::new(), false),
+        };
 
         // get field names if available
         let mut field_names: Vec<String> = Vec::new();
@@ -88,13 +91,21 @@ impl CSVSource {
 
         let timestamp_config = csv_config.timestamp_config();
         let timezone = timestamp_config.timezone();
-        let (timestamp_col, timestamp_fmt) = csv_timestamp::get_timestamp_col_and_fmt(
-            &header,
-            &first_row,
-            timestamp_config.timestamp_col(),
-            timestamp_config.timestamp_fmt(),
-            timezone,
-        )?;
+        let (timestamp_col, timestamp_fmt) = if has_next_row {
+            csv_timestamp::get_timestamp_col_and_fmt(
+                &header,
+                &first_row,
+                timestamp_config.timestamp_col(),
+                timestamp_config.timestamp_fmt(),
+                timezone,
+            )?
+        } else {
+            // doesn't really matter, since there are no rows to get timestamps from
+            (
+                TimestampCol::Index(0),
+                TimestampFmt::Units(TimestampUnits::Nanos),
+            )
+        };
 
         let mut csv_reader = CSVSource {
             reader,
@@ -103,11 +114,13 @@ impl CSVSource {
             timestamp_fmt,
             timezone: timezone.clone(),
             next_row,
-            has_next_row: true,
+            has_next_row,
         };
 
         // update next_row with first row
-        csv_reader.update_row(first_row)?;
+        if has_next_row {
+            csv_reader.update_row(first_row)?;
+        }
 
         Ok(csv_reader)
     }
-- 
2.43.0


From 09bd49827ff5b036be82dba7e085dc8082e0bc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 08/40] fix: report csv timestamps that are missing or out of
 range

Timestamps before 1970 or too big for nanoseconds since epoch silently
wrapped around or panicked, and rows without the timestamp column panicked.
---
 src/source/csv_timestamp.rs | 76 +++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 25 deletions(-)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index 748517f..09d1d33 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -1,6 +1,6 @@
 use std::ops::Range;
 
-use chrono::{DateTime, NaiveDate, NaiveDateTime};
+use chrono::{DateTime, NaiveDate, NaiveDateTime, TimeZone};
 
 use crate::chopper::types::{Header, Nanos};
 use crate::error::{CliResult, Error};
@@ -85,39 +85,52 @@ pub fn get_timestamp(
     timestamp_fmt: &TimestampFmt,
     timezone: &ChopperTz,
 ) -> CliResult<Nanos> {
-    let timestamp = get_timestamp_string(record, timestamp_col);
+    let timestamp = get_timestamp_string(record, timestamp_col)?;
 
-    let timestamp = match timestamp_fmt {
+    let nanos = match timestamp_fmt {
         TimestampFmt::Units(units) => {
             let timestamp: u64 = match timestamp.parse::<u64>() {
                 Ok(ts) => ts,
                 Err(err) => return Err(Error::Custom(err.to_string())),
             };
             match units {
-                TimestampUnits::Seconds => timestamp * 1_000_000_000,
-                TimestampUnits::Millis => timestamp * 1_000_000,
-                TimestampUnits::Micros => timestamp * 1_000,
-                TimestampUnits::Nanos => timestamp,
+                TimestampUnits::Seconds => timestamp.checked_mul(1_000_000_000),
+                TimestampUnits::Millis => timestamp.checked_mul(1_000_000),
+                TimestampUnits::Micros => timestamp.checked_mul(1_000),
+                TimestampUnits::Nanos => Some(timestamp),
             }
         }
         TimestampFmt::DateTimeIncludesTz(format) => {
-            DateTime::parse_from_str(&timestamp, format)?.timestamp_nanos() as u64
+            datetime_to_nanos(&DateTime::parse_from_str(&timestamp, format)?)
         }
         TimestampFmt::DateTimeNeedsExternalTz(format) => {
             let naive_date_time = NaiveDateTime::parse_from_str(&timestamp, format)?;
-            timezone
-                .from_local_datetime(&naive_date_time)?
-                .timestamp_nanos() as u64
+            datetime_to_nanos(&timezone.from_local_datetime(&naive_date_time)?)
         }
         TimestampFmt::DateNeedsExternalTz(format) => {
             let naive_date = NaiveDate::parse_from_str(&timestamp, format)?;
             let naive_date_time = naive_date.and_hms(0, 0, 0);
-            timezone
-                .from_local_datetime(&naive_date_time)?
-                .timestamp_nanos() as u64
+            datetime_to_nanos(&timezone.from_local_datetime(&naive_date_time)?)
         }
     };
-    Ok(timestamp)
+    match nanos {
+        Some(nanos) => Ok(nanos),
+        None => Err(Error::from(format!(
+            "Timestamp {} is out of range supported by nanoseconds since epoch.",
+            timestamp
+        ))),
+    }
+}
+
+/// returns None if timestamp is before epoch or too far in the future
+fn datetime_to_nanos<T: TimeZone>(datetime: &DateTime<T>) -> Option<Nanos> {
+    let seconds = datetime.timestamp();
+    if seconds < 0 {
+        return None;
+    }
+    (seconds as Nanos)
+        .checked_mul(1_000_000_000)?
+        .checked_add(datetime.timestamp_subsec_nanos() as Nanos)
 }
 
 pub fn get_timestamp_col_and_fmt(
@@ -152,7 +165,7 @@ fn get_timestamp_fmt_from_user_spec(
     format: String,
     timezone: &ChopperTz,
 ) -> CliResult<TimestampFmt> {
-    let timestamp = get_timestamp_string(first_row, timestamp_col);
+    let timestamp = get_timestamp_string(first_row, timestamp_col)?;
 
     if let Ok(_) = DateTime::parse_from_str(&timestamp, &format) {
         Ok(TimestampFmt::DateTimeIncludesTz(format))
@@ -172,19 +185,32 @@ fn get_timestamp_fmt_from_user_spec(
     }
 }
 
-fn get_timestamp_string(record: &csv::StringRecord, timestamp_col: &TimestampCol) -> String {
-    match timestamp_col {
-        TimestampCol::Index(i) => record.get(*i).unwrap().to_string(),
+fn get_timestamp_field(record: &csv::StringRecord, index: usize) -> CliResult<&str> {
+    match record.get(index) {
+        Some(field) => Ok(field),
+        None => Err(Error::from(format!(
+            "Row does not have timestamp column at index {}: {:?}",
+            index, record
+        ))),
+    }
+}
+
+fn get_timestamp_string(
+    record: &csv::StringRecord,
+    timestamp_col: &TimestampCol,
+) -> CliResult<String> {
+    Ok(match timestamp_col {
+        TimestampCol::Index(i) => get_timestamp_field(record, *i)?.to_string(),
         TimestampCol::DateTimeIndex(d, t) => {
-            let date = record.get(*d).unwrap();
-            let time = record.get(*t).unwrap();
+            let date = get_timestamp_field(record, *d)?;
+            let time = get_timestamp_field(record, *t)?;
             let mut timestamp = String::with_capacity(date.len() + 1 + time.len());
             timestamp.push_str(date);
             timestamp.push('#');
             timestamp.push_str(time);
             timestamp
         }
-    }
+    })
 }
 
 fn get_timestamp_col(
@@ -332,7 +358,7 @@ fn get_timestamp_fmt_auto_with_index(
         return Ok(TimestampFmt::Units(units));
     }
 
-    let timestamp = first_row.get(time_idx).unwrap();
+    let timestamp = get_timestamp_field(first_row, time_idx)?;
 
     for format in &TIME_FORMATS_WITH_TZ {
         if DateTime::parse_from_str(timestamp, format).is_ok() {
@@ -387,8 +413,8 @@ fn get_timestamp_fmt_auto_with_datetimeindex(
     timezone: &ChopperTz,
     first_row: &csv::StringRecord,
 ) -> CliResult<TimestampFmt> {
-    let date = first_row.get(date_idx).unwrap();
-    let time = first_row.get(time_idx).unwrap();
+    let date = get_timestamp_field(first_row, date_idx)?;
+    let time = get_timestamp_field(first_row, time_idx)?;
 
     let mut timestamp = String::with_capacity(date.len() + 1 + time.len());
     timestamp.push_str(date);
-- 
2.43.0


From 2d43fd3a1c63b0d9643f329e5c1d5732160a0d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 09/40] fix: saturate begin and end times outside of supported
 range

--begin before 1970 wrapped around to far future and skipped everything;
times after 2262 panicked.
---
 src/util/timestamp_util.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/util/timestamp_util.rs b/src/util/timestamp_util.rs
index 5d63fe7..b544626 100644
--- a/src/util/timestamp_util.rs
+++ b/src/util/timestamp_util.rs
@@ -1,4 +1,4 @@
-use chrono::{DateTime, NaiveDateTime};
+use chrono::{DateTime, NaiveDateTime, TimeZone};
 
 use crate::chopper::types::Nanos;
 use crate::error::{CliResult, Error};
@@ -74,14 +74,16 @@ pub fn parse_datetime_range_element(datetime: &str, timezone: &ChopperTz) -> Cli
     // try the formats that don't need external TZ first
     for format in &DATETIME_RANGE_FORMATS_WITH_TZ {
         if let Ok(dt) = DateTime::parse_from_str(&datetime, format) {
-            return Ok(dt.timestamp_nanos() as Nanos);
+            return Ok(datetime_to_nanos_saturating(&dt));
         };
     }
 
     // try available datetime formats that need external TZ
     for format in DATETIME_RANGE_FORMATS_NEED_TZ.iter() {
         if let Ok(ndt) = NaiveDateTime::parse_from_str(&datetime, &format) {
-            return Ok(timezone.from_local_datetime(&ndt)?.timestamp_nanos() as Nanos);
+            return Ok(datetime_to_nanos_saturating(
+                &timezone.from_local_datetime(&ndt)?,
+            ));
         }
     }
 
@@ -91,6 +93,17 @@ pub fn parse_datetime_range_element(datetime: &str, timezone: &ChopperTz) -> Cli
     )))
 }
 
+/// range elements that can't be represented compare the same way as closest ones that can
+fn datetime_to_nanos_saturating<T: TimeZone>(datetime: &DateTime<T>) -> Nanos {
+    let seconds = datetime.timestamp();
+    if seconds < 0 {
+        return 0;
+    }
+    (seconds as Nanos)
+        .saturating_mul(1_000_000_000)
+        .saturating_add(datetime.timestamp_subsec_nanos() as Nanos)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From eac755964b1d3bb0ff32a8af5955f3a0783b4e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 10/40] fix: decompress all members of gzip files

Only the first member was read, silently dropping the rest of the data of
concatenated gzip files.
---
 src/decompress/decompress.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index b081007..7bd75c0 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -2,7 +2,7 @@ use std::io;
 use std::io::{BufReader, Read};
 
 use byteorder::{BigEndian, ReadBytesExt};
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use lz_fear::LZ4FrameReader;
 
 use paku::lz4_jblock::Lz4JBlockReader;
@@ -116,7 +116,7 @@ pub fn decompress(
 }
 
 fn decompress_gz(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let decoder = GzDecoder::new(reader);
+    let decoder = MultiGzDecoder::new(reader);
     Ok(Box::new(decoder))
 }
 
-- 
2.43.0


From 80b1570e979214a9bc8f12c38615ad433724b0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 11/40] fix: decompress all frames of zst files and verify
 their checksums

Only the first frame was read, silently dropping the rest of the data of
concatenated zst files, and content checksums were never compared, so
corrupted data went through unnoticed.
---
 src/decompress/zst.rs | 55 +++++++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/src/decompress/zst.rs b/src/decompress/zst.rs
index 3d6989a..9cdc031 100644
--- a/src/decompress/zst.rs
+++ b/src/decompress/zst.rs
@@ -1,12 +1,12 @@
 use ruzstd::{BlockDecodingStrategy, FrameDecoder};
-use std::io::{self, Read};
+use std::io::{self, BufRead, Read};
 
 pub struct ZstReader<R> {
     inner: R,
     decoder: FrameDecoder,
 }
 
-impl<R: Read> ZstReader<R> {
+impl<R: BufRead> ZstReader<R> {
     pub fn new(reader: R) -> io::Result<ZstReader<R>> {
         let mut zst_reader = ZstReader {
             inner: reader,
@@ -22,28 +22,53 @@ impl<R: Read> ZstReader<R> {
             Err(e) => Err(io::Error::new(io::ErrorKind::Other, e)),
         }
     }
+
+    /// only makes sense after all of the decoded bytes were collected
+    fn verify_checksum(&self) -> io::Result<()> {
+        if let Some(expected) = self.decoder.get_checksum_from_data() {
+            if self.decoder.get_calculated_checksum() != Some(expected) {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "zst checksum mismatch",
+                ));
+            }
+        }
+        Ok(())
+    }
 }
 
-impl<R: Read> Read for ZstReader<R> {
+impl<R: BufRead> Read for ZstReader<R> {
     /// this impl works best with buffered reader on top of it, since it
     /// tries to fill the buf as much as possible by potentially decoding
     /// on every invocation
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        while !self.decoder.is_finished() {
-            let bytes_available = self.decoder.can_collect();
-            if bytes_available >= buf.len() {
-                break;
+        loop {
+            while !self.decoder.is_finished() {
+                let bytes_available = self.decoder.can_collect();
+                if bytes_available >= buf.len() {
+                    break;
+                }
+
+                let additional_bytes_needed = buf.len() - bytes_available;
+                if let Err(e) = self.decoder.decode_blocks(
+                    &mut self.inner,
+                    BlockDecodingStrategy::UptoBytes(additional_bytes_needed),
+                ) {
+                    return Err(io::Error::new(io::ErrorKind::Other, e));
+                }
             }
 
-            let additional_bytes_needed = buf.len() - bytes_available;
-            if let Err(e) = self.decoder.decode_blocks(
-                &mut self.inner,
-                BlockDecodingStrategy::UptoBytes(additional_bytes_needed),
-            ) {
-                return Err(io::Error::new(io::ErrorKind::Other, e));
+            let bytes_read = self.decoder.read(buf)?;
+            if bytes_read > 0 || buf.is_empty() {
+                return Ok(bytes_read);
             }
-        }
 
-        self.decoder.read(buf)
+            // got to the end of the frame, see if there is another one
+            self.verify_checksum()?;
+            if self.inner.fill_buf()?.is_empty() {
+                return Ok(0);
+            }
+            self.init()?;
+        }
     }
 }
-- 
2.43.0


From 5f864dcf979079875c205765dbcc61bd9a7d84d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 12/40] fix: decompress all frames of lz4 files

Only the first frame was read, silently dropping the rest of the data of
concatenated lz4 files.
---
 src/decompress/decompress.rs |  8 ++---
 src/decompress/lz4_frame.rs  | 59 ++++++++++++++++++++++++++++++++++++
 src/decompress/mod.rs        |  1 +
 3 files changed, 64 insertions(+), 4 deletions(-)
 create mode 100644 src/decompress/lz4_frame.rs

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index 7bd75c0..c6c483d 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -3,11 +3,11 @@ use std::io::{BufReader, Read};
 
 use byteorder::{BigEndian, ReadBytesExt};
 use flate2::read::MultiGzDecoder;
-use lz_fear::LZ4FrameReader;
 
 use paku::lz4_jblock::Lz4JBlockReader;
 use paku::lzf::LzfReader;
 
+use crate::decompress::lz4_frame::Lz4FramesReader;
 use crate::decompress::zst::ZstReader;
 use crate::error::{CliResult, Error};
 use crate::util::reader::{ChopperBufPreviewer, ChopperBufReader};
@@ -130,13 +130,13 @@ fn decompress_lz4(previewer: ChopperBufPreviewer<Box<dyn Read>>) -> CliResult<Bo
 }
 
 fn decompress_lz4_frame(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let frame_reader = match LZ4FrameReader::new(reader) {
-        Ok(frame_reader) => frame_reader,
+    let frames_reader = match Lz4FramesReader::new(reader) {
+        Ok(frames_reader) => frames_reader,
         Err(e) => {
             return CliResult::Err(Error::Io(io::Error::new(io::ErrorKind::Other, e)));
         }
     };
-    Ok(Box::new(frame_reader.into_read()))
+    Ok(Box::new(frames_reader))
 }
 
 fn decompress_lz4_jblock(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
diff --git a/src/decompress/lz4_frame.rs b/src/decompress/lz4_frame.rs
new file mode 100644
index 0000000..569af78
--- /dev/null
+++ b/src/decompress/lz4_frame.rs
@@ -0,0 +1,59 @@
+use std::cell::RefCell;
+use std::io::{self, BufRead, Read};
+use std::rc::Rc;
+
+use lz_fear::framed::{DecompressionError, LZ4FrameIoReader};
+use lz_fear::LZ4FrameReader;
+
+/// reads all of the lz4 frames one after another, until the end of the underlying reader
+pub struct Lz4FramesReader<R: BufRead> {
+    inner: SharedReader<R>,
+    frame: LZ4FrameIoReader<'static, SharedReader<R>>,
+}
+
+impl<R: BufRead> Lz4FramesReader<R> {
+    pub fn new(reader: R) -> Result<Lz4FramesReader<R>, DecompressionError> {
+        let inner = SharedReader(Rc::new(RefCell::new(reader)));
+        let frame = LZ4FrameReader::new(inner.clone())?.into_read();
+        Ok(Lz4FramesReader { inner, frame })
+    }
+}
+
+impl<R: BufRead> Read for Lz4FramesReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            let bytes_read = self.frame.read(buf)?;
+            if bytes_read > 0 || buf.is_empty() {
+                return Ok(bytes_read);
+            }
+
+            // got to the end of the frame, see if there is another one
+            if self.inner.is_at_end()? {
+                return Ok(0);
+            }
+            self.frame = LZ4FrameReader::new(self.inner.clone())?.into_read();
+        }
+    }
+}
+
+/// frame reader takes ownership of its reader, so it's shared to be able to continue
+/// reading where the frame ended
+struct SharedReader<R>(Rc<RefCell<R>>);
+
+impl<R> Clone for SharedReader<R> {
+    fn clone(&self) -> Self {
+        SharedReader(self.0.clone())
+    }
+}
+
+impl<R: BufRead> SharedReader<R> {
+    fn is_at_end(&self) -> io::Result<bool> {
+        Ok(self.0.borrow_mut().fill_buf()?.is_empty())
+    }
+}
+
+impl<R: Read> Read for SharedReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.0.borrow_mut().read(buf)
+    }
+}
diff --git a/src/decompress/mod.rs b/src/decompress/mod.rs
index b7b7a1f..c036aeb 100644
--- a/src/decompress/mod.rs
+++ b/src/decompress/mod.rs
@@ -1,4 +1,5 @@
 mod crc32;
 pub mod decompress;
+mod lz4_frame;
 pub mod zip;
 mod zst;
-- 
2.43.0


From c9b4dd901e1514f18552796c0ba854f9b3831e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 13/40] fix: account for field headers when skipping zip extra
 fields

Central directory headers with several extra fields were read past their end,
so some valid archives were rejected.
---
 src/decompress/zip.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decompress/zip.rs b/src/decompress/zip.rs
index 2d0e916..cfe8238 100644
--- a/src/decompress/zip.rs
+++ b/src/decompress/zip.rs
@@ -377,7 +377,8 @@ impl CentralDirHeader {
             }
             reader.seek(SeekFrom::Current(data_size - data_read))?;
 
-            total_bytes_read += data_size as u64;
+            // each of the extra fields also has 4 bytes of header id and data size
+            total_bytes_read += 4 + data_size as u64;
         }
 
         Ok((uncompressed_size, compressed_size, local_header_offset))
-- 
2.43.0


From cdfdddbd0aa3d75a92ecf6796e6c22f01590662b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 14/40] fix: don't mistake non-ascii characters for delimiters
 when guessing one

Characters were truncated to their low byte before counting, so for example
U+012C counted as a comma.
---
 src/util/csv_util.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/csv_util.rs b/src/util/csv_util.rs
index 581611f..721f9a1 100644
--- a/src/util/csv_util.rs
+++ b/src/util/csv_util.rs
@@ -35,8 +35,9 @@ pub fn guess_delimiter(row: &str, possible_delimiters: &[u8]) -> u8 {
         counts.insert(*d, 0);
     }
 
-    for c in row.chars() {
-        counts.entry(c as u8).and_modify(|count| *count += 1);
+    // delimiters are all ascii, so it's safe to look at bytes instead of chars
+    for b in row.bytes() {
+        counts.entry(b).and_modify(|count| *count += 1);
     }
 
     let mut sorted = possible_delimiters.to_vec();
-- 
2.43.0


From f33547499c9424cb00d5bf1757ea015d0d3611f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 15/40] fix: drop extra trailing columns of the next file in a
 multi-file input

Extra columns were dropped only if columns also had to be reordered, so rows
could end up with more values than there are columns in the header.
---
 src/source/multi_file_source.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/source/multi_file_source.rs b/src/source/multi_file_source.rs
index a92bcc1..ef30c45 100644
--- a/src/source/multi_file_source.rs
+++ b/src/source/multi_file_source.rs
@@ -111,7 +111,9 @@ impl SerialMultiFileSource {
         }
 
         let mut new_header = new_header.clone();
-        let mut is_identity_map = true;
+        // extra columns have to be dropped, so it's not quite identity if there are any
+        let mut is_identity_map =
+            new_header.field_names().len() == ref_header.field_names().len();
 
         let mut swap_map = Vec::with_capacity(ref_header.field_names().len());
         for (ref_idx, ref_field_name) in ref_header.field_names().iter().enumerate() {
-- 
2.43.0


From e6814f3c80d9793dbb651d7e2bf792e763da760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 16/40] fix: look for dc file contents before falling back to
 csv

A dc file with no bytes that are invalid as utf8 in the preview was
autodetected as csv when file name had no extension, or when using stdin.
---
 src/input/input_factory.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input/input_factory.rs b/src/input/input_factory.rs
index 2a388ef..ebfd129 100644
--- a/src/input/input_factory.rs
+++ b/src/input/input_factory.rs
@@ -152,11 +152,11 @@ impl InputFactory {
 pub fn create_default_source_factories(
     csv_input_config: Option<CSVInputConfig>,
 ) -> Vec<Box<dyn SourceFactory>> {
-    let mut source_factories: Vec<Box<dyn SourceFactory>> = Vec::new();
+    let mut source_factories: Vec<Box<dyn SourceFactory>> = vec![Box::new(DCFactory)];
+    // csv factory is the last one, since it accepts pretty much anything as csv
     if let Some(csv_input_config) = csv_input_config {
         source_factories.push(Box::new(CSVFactory::new(csv_input_config)));
     }
-    source_factories.push(Box::new(DCFactory));
     source_factories
 }
 
-- 
2.43.0


From 2359d6870efed37fd4a799e191319a9bda380b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 17/40] fix: use output delimiter in the csv header line too

Header was always separated by commas regardless of --delimiter, and had a
trailing one if there were no columns.
---
 src/write/csv_sink.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/write/csv_sink.rs b/src/write/csv_sink.rs
index 39253ee..bf29429 100644
--- a/src/write/csv_sink.rs
+++ b/src/write/csv_sink.rs
@@ -36,18 +36,20 @@ impl CSVSink {
     fn write_csv_header(&mut self, header: &mut Header) -> CliResult<()> {
         let writer = &mut self.writer;
         let field_name = header.field_names().clone();
+        let delimiter = self.csv_output_config.delimiter();
         let mut first = true;
 
         if self.csv_output_config.print_time_col() {
-            write!(writer, "{},", self.csv_output_config.time_col_name())?;
+            write!(writer, "{}", self.csv_output_config.time_col_name())?;
+            first = false;
         }
         for name in field_name {
             if first {
-                write!(writer, "{}", name)?;
                 first = false;
             } else {
-                write!(writer, ",{}", name)?;
+                write!(writer, "{}", delimiter)?;
             }
+            write!(writer, "{}", name)?;
         }
         write!(writer, "\n")?;
         Ok(())
-- 
2.43.0


From a23a90cea63fdb427683dbc4fa414d5d2eeb183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 18/40] fix: handle --print-time values in any case

The arg is declared case insensitive, but anything other than lower case
ended in a panic.
---
 src/chopper_cli.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/chopper_cli.rs b/src/chopper_cli.rs
index d28800a..480c74e 100644
--- a/src/chopper_cli.rs
+++ b/src/chopper_cli.rs
@@ -214,7 +214,13 @@ fn parse_csv_input_config(matches: &ArgMatches, timezone: ChopperTz) -> CliResul
 
 fn parse_csv_output_config(matches: &ArgMatches, timezone: ChopperTz) -> CSVOutputConfig {
     let csv_out_delimiter = matches.value_of("csv_out_delimiter").unwrap();
-    let csv_out_print_time_col = match matches.value_of("csv_out_print_time_col").unwrap() {
+    // arg is case insensitive
+    let csv_out_print_time_col = match matches
+        .value_of("csv_out_print_time_col")
+        .unwrap()
+        .to_lowercase()
+        .as_str()
+    {
         "yes" => true,
         "no" => false,
         _ => unreachable!(),
-- 
2.43.0


From 853c628a19cd4cff85c800024bf7dd3190548f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 19/40] fix: reject conflicting --epoch and --human

The conflict was declared using names of args that don't exist, so --human
was silently ignored.
---
 src/cli_app.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli_app.rs b/src/cli_app.rs
index 7db1f81..4c72024 100644
--- a/src/cli_app.rs
+++ b/src/cli_app.rs
@@ -91,7 +91,7 @@ impl CliApp {
                     .long("epoch")
                     .help("csv output only: time column has epoch timestamps")
                     .takes_value(false)
-                    .conflicts_with("human")
+                    .conflicts_with("csv_out_time_fmt_human")
             )
             .arg(
                 Arg::with_name("csv_out_time_fmt_human")
@@ -99,7 +99,7 @@ impl CliApp {
                     .long("human")
                     .help("csv output only: time column is human-readable; default")
                     .takes_value(false)
-                    .conflicts_with("epoch")
+                    .conflicts_with("csv_out_time_fmt_epoch")
             )
             .arg(
                 Arg::with_name("csv_out_time_col_units")
-- 
2.43.0


From feda82ad82409ffd490960a7fa4c965637192b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 20/40] fix: report unknown time zones as an error

Time zone names that can't be parsed made chopper panic.
---
 src/chopper_cli.rs |  2 +-
 src/util/tz.rs     | 29 ++++++++++++++++++-----------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/chopper_cli.rs b/src/chopper_cli.rs
index 480c74e..fe0e533 100644
--- a/src/chopper_cli.rs
+++ b/src/chopper_cli.rs
@@ -42,7 +42,7 @@ pub fn parse_cli_args(
         error::turn_on_backtrace()
     }
 
-    let timezone = ChopperTz::new_from_cli_arg(matches.value_of("timezone"), timezone_map);
+    let timezone = ChopperTz::new_from_cli_arg(matches.value_of("timezone"), timezone_map)?;
 
     let timestamp_range = TimestampRange::new(
         matches.value_of("begin"),
diff --git a/src/util/tz.rs b/src/util/tz.rs
index 129c0f9..75038f7 100644
--- a/src/util/tz.rs
+++ b/src/util/tz.rs
@@ -16,9 +16,9 @@ impl ChopperTz {
     pub fn new_from_cli_arg(
         cli_timezone_arg: Option<&str>,
         timezone_map: Option<HashMap<&str, Tz>>,
-    ) -> ChopperTz {
-        let timezone = Self::resolve_timezone(cli_timezone_arg, timezone_map);
-        ChopperTz { timezone }
+    ) -> CliResult<ChopperTz> {
+        let timezone = Self::resolve_timezone(cli_timezone_arg, timezone_map)?;
+        Ok(ChopperTz { timezone })
     }
 
     pub fn new_always_fails() -> ChopperTz {
@@ -28,23 +28,30 @@ impl ChopperTz {
     fn resolve_timezone(
         cli_timezone_arg: Option<&str>,
         timezone_map: Option<HashMap<&str, Tz>>,
-    ) -> Option<Tz> {
+    ) -> CliResult<Option<Tz>> {
         let timezone_arg = match cli_timezone_arg {
             None => match env::var("CHOPPER_TZ") {
-                Ok(s) => Some(s),
-                Err(_) => None,
+                Ok(s) => s,
+                Err(_) => return Ok(None),
             },
-            Some(s) => Some(s.to_owned()),
-        }?;
+            Some(s) => s.to_owned(),
+        };
 
         let timezone: Tz = match timezone_map {
-            None => timezone_arg.parse().unwrap(),
+            None => Self::parse_timezone(&timezone_arg)?,
             Some(map) => match map.get(timezone_arg.as_str()) {
-                None => timezone_arg.parse().unwrap(),
+                None => Self::parse_timezone(&timezone_arg)?,
                 Some(s) => *s,
             },
         };
-        Some(timezone)
+        Ok(Some(timezone))
+    }
+
+    fn parse_timezone(timezone: &str) -> CliResult<Tz> {
+        match timezone.parse() {
+            Ok(timezone) => Ok(timezone),
+            Err(e) => Err(Custom(format!("Unknown timezone '{}': {}", timezone, e))),
+        }
     }
 
     pub fn from_local_datetime(&self, local: &NaiveDateTime) -> CliResult<DateTime<Tz>> {
-- 
2.43.0


From 0d0f87330cc39339fea6ab92c981bd7f3dc519b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 21/40] fix: drop rows with null values in greater than filter

A null in the filtered column terminated the process.
---
 src/filter/row_filter_greater_value.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/filter/row_filter_greater_value.rs b/src/filter/row_filter_greater_value.rs
index aaa3c68..e7c712e 100644
--- a/src/filter/row_filter_greater_value.rs
+++ b/src/filter/row_filter_greater_value.rs
@@ -52,6 +52,11 @@ impl DataSink for RowFilterGreaterValue {
             Some(i) => {
                 let row = io_rows.get(0).unwrap();
                 let field_value: &FieldValue = row.field_values.get(i).unwrap();
+                if let FieldValue::None = field_value {
+                    // null is not greater than anything and can't be compared to other types
+                    io_rows.clear();
+                    return Ok(());
+                }
                 if Some(Ordering::Greater) != field_value.partial_cmp(&self.value) {
                     io_rows.clear();
                     return Ok(());
-- 
2.43.0


From de8b3bb72bc271aab231084c20f3934f67abe477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 22/40] fix: allow inputs that can't be seeked

Named pipes, including /dev/stdin and shell process substitution, failed when
checking if the input is a zip file.
---
 src/transport/seekable/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transport/seekable/file.rs b/src/transport/seekable/file.rs
index cbe685a..bbb0ac4 100644
--- a/src/transport/seekable/file.rs
+++ b/src/transport/seekable/file.rs
@@ -10,7 +10,8 @@ pub struct SeekableFileTransport;
 
 impl SeekableTransport for SeekableFileTransport {
     fn can_open(&self, path: &Path) -> bool {
-        path.exists()
+        // things like named pipes can be streamed, but can't be seeked
+        path.is_file()
     }
 
     fn open(&self, path: &Path) -> io::Result<Box<dyn ReadSeek>> {
-- 
2.43.0


From 70b615f636b4859a1eab6e7d7c9d5ec64a881538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 23/40] fix: don't mistake epoch timestamps for date/time
 without separator

---
 src/source/csv_timestamp.rs | 39 +++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index 09d1d33..ecb9ccd 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -360,6 +360,26 @@ fn get_timestamp_fmt_auto_with_index(
 
     let timestamp = get_timestamp_field(first_row, time_idx)?;
 
+    // needs to come first, since formats with spaces also match when the space is missing
+    if timestamp.chars().all(|c| c.is_ascii_digit()) {
+        let n = match timestamp.parse::<u64>() {
+            Ok(ts) => ts,
+            Err(err) => return Err(Error::Custom(err.to_string())),
+        };
+        if RANGE_NANOS.contains(&n) {
+            return Ok(TimestampFmt::Units(TimestampUnits::Nanos));
+        }
+        if RANGE_MICROS.contains(&n) {
+            return Ok(TimestampFmt::Units(TimestampUnits::Micros));
+        }
+        if RANGE_MILLIS.contains(&n) {
+            return Ok(TimestampFmt::Units(TimestampUnits::Millis));
+        }
+        if RANGE_SECONDS.contains(&n) {
+            return Ok(TimestampFmt::Units(TimestampUnits::Seconds));
+        }
+    };
+
     for format in &TIME_FORMATS_WITH_TZ {
         if DateTime::parse_from_str(timestamp, format).is_ok() {
             return Ok(TimestampFmt::DateTimeIncludesTz(format.to_string()));
@@ -383,25 +403,6 @@ fn get_timestamp_fmt_auto_with_index(
         };
     }
 
-    if timestamp.chars().all(|c| c.is_ascii_digit()) {
-        let n = match timestamp.parse::<u64>() {
-            Ok(ts) => ts,
-            Err(err) => return Err(Error::Custom(err.to_string())),
-        };
-        if RANGE_NANOS.contains(&n) {
-            return Ok(TimestampFmt::Units(TimestampUnits::Nanos));
-        }
-        if RANGE_MICROS.contains(&n) {
-            return Ok(TimestampFmt::Units(TimestampUnits::Micros));
-        }
-        if RANGE_MILLIS.contains(&n) {
-            return Ok(TimestampFmt::Units(TimestampUnits::Millis));
-        }
-        if RANGE_SECONDS.contains(&n) {
-            return Ok(TimestampFmt::Units(TimestampUnits::Seconds));
-        }
-    };
-
     Err(Error::from(format!(
         "Cannot parse timestamp. Please provide format for parsing."
     )))
-- 
2.43.0


From 30dc5624ed4be2d132f9ae85e1ce4773f9b1aaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 24/40] fix: write infinite and not-a-number values to csv as
 such

---
 src/write/csv_sink.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/write/csv_sink.rs b/src/write/csv_sink.rs
index bf29429..e5ff2d3 100644
--- a/src/write/csv_sink.rs
+++ b/src/write/csv_sink.rs
@@ -116,9 +116,12 @@ impl DataSink for CSVSink {
                     ))
                 }
                 FieldValue::Char(x) => write!(self.writer, "{}", x)?,
+                // dtoa handles finite values only
+                FieldValue::Double(x) if !x.is_finite() => write!(self.writer, "{}", x)?,
                 FieldValue::Double(x) => {
                     dtoa::write(&mut self.writer, *x)?;
                 }
+                FieldValue::Float(x) if !x.is_finite() => write!(self.writer, "{}", x)?,
                 FieldValue::Float(x) => {
                     dtoa::write(&mut self.writer, *x)?;
                 }
-- 
2.43.0


From d527935d48a80fad99f73bd7b2b8350e55b290d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 25/40] fix: report early end of input between lzf and lz4
 blocks

---
 src/decompress/decompress.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index c6c483d..b718ecb 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -140,15 +140,31 @@ fn decompress_lz4_frame(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Bo
 }
 
 fn decompress_lz4_jblock(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let decoder = Lz4JBlockReader::new(reader, true, true);
+    let decoder = Lz4JBlockReader::new(EofErrorReader { reader }, true, true);
     Ok(Box::new(decoder))
 }
 
 fn decompress_lzf(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let decoder = LzfReader::new(reader);
+    let decoder = LzfReader::new(EofErrorReader { reader });
     Ok(Box::new(decoder))
 }
 
+/// The readers that decode block by block take `ErrorKind::UnexpectedEof` at the start of a block
+/// to be the end of data, even if it is an error of the underlying reader (a connection that was
+/// closed too early, for instance), so such errors have to be told apart from the end of data.
+struct EofErrorReader<R> {
+    reader: R,
+}
+
+impl<R: Read> Read for EofErrorReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.reader.read(buf).map_err(|e| match e.kind() {
+            io::ErrorKind::UnexpectedEof => io::Error::new(io::ErrorKind::Other, e),
+            _ => e,
+        })
+    }
+}
+
 fn decompress_zst(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
     let decoder = ZstReader::new(reader)?;
     Ok(Box::new(decoder))
-- 
2.43.0


From 42dd4ebb1c8c7f68332cf438d14a7938e90a1c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:10 +0000
Subject: [PATCH 26/40] fix: report errors of listing a directory

---
 src/transport/dir/file.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/transport/dir/file.rs b/src/transport/dir/file.rs
index 5aa1ee9..26f47d4 100644
--- a/src/transport/dir/file.rs
+++ b/src/transport/dir/file.rs
@@ -1,3 +1,4 @@
+use std::io;
 use std::path::{Path, PathBuf};
 
 use crate::error::CliResult;
@@ -16,13 +17,11 @@ impl DirTransport for DirFileTransport {
     }
 
     fn read_dir(&self, path: &Path) -> CliResult<Box<dyn Iterator<Item = PathBuf>>> {
-        match path.read_dir() {
-            Ok(dir_entry_iter) => {
-                let path_iter = dir_entry_iter.filter_map(|entry| Some(entry.ok()?.path()));
-                Ok(Box::new(path_iter))
-            }
-            Err(e) => Err(e.into()),
-        }
+        let paths = path
+            .read_dir()?
+            .map(|entry| entry.map(|entry| entry.path()))
+            .collect::<io::Result<Vec<PathBuf>>>()?;
+        Ok(Box::new(paths.into_iter()))
     }
 
     fn box_clone(&self) -> Box<dyn DirTransport> {
-- 
2.43.0


From 08db971400968cf7bef029be73b31e7d0683df68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 27/40] fix: report arguments that aren't valid utf-8 instead
 of panicking

---
 src/cli_app.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cli_app.rs b/src/cli_app.rs
index 4c72024..5338fd5 100644
--- a/src/cli_app.rs
+++ b/src/cli_app.rs
@@ -1,5 +1,5 @@
 use clap::crate_version;
-use clap::{App, Arg};
+use clap::{App, AppSettings, Arg};
 
 pub struct CliApp;
 
@@ -8,6 +8,8 @@ impl CliApp {
         let app = App::new("chopper")
             .version(crate_version!())
             .about("chopper is a simple streaming time series tool")
+            // arguments that aren't valid utf-8 are errors, rather than panics when they are looked at
+            .setting(AppSettings::StrictUtf8)
             .arg(
                 Arg::with_name("input")
                     .help("sets the input files to use; \nif missing, stdin will be used")
-- 
2.43.0


From 4884ce70440fd76a834e6149e4a250cb5c7d8075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 28/40] fix: report http responses shorter than announced

---
 src/transport/streaming/http.rs | 38 ++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/transport/streaming/http.rs b/src/transport/streaming/http.rs
index 25de02c..64ed84e 100644
--- a/src/transport/streaming/http.rs
+++ b/src/transport/streaming/http.rs
@@ -6,6 +6,31 @@ use crate::transport::streaming::streaming_transport::StreamingTransport;
 #[derive(Clone)]
 pub struct HttpTransport;
 
+/// Makes sure that there are exactly as many bytes in response as were announced, since that's
+/// not checked by the http client if the connection is going to be closed after the response.
+struct ExactLengthReader<R> {
+    reader: R,
+    remaining: u64,
+}
+
+impl<R: io::Read> io::Read for ExactLengthReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if buf.is_empty() || self.remaining == 0 {
+            return Ok(0);
+        }
+        let limit = self.remaining.min(buf.len() as u64) as usize;
+        let size = self.reader.read(&mut buf[..limit])?;
+        if size == 0 {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "http response ended before all bytes were read",
+            ));
+        }
+        self.remaining -= size as u64;
+        Ok(size)
+    }
+}
+
 impl StreamingTransport for HttpTransport {
     fn can_open(&self, path: &Path) -> bool {
         path.starts_with("http://") || path.starts_with("https://")
@@ -15,7 +40,18 @@ impl StreamingTransport for HttpTransport {
         let response = ureq::get(path.to_str().unwrap()).call();
 
         if response.ok() {
-            Ok(Box::new(response.into_reader()))
+            // length is to be ignored if there is transfer encoding
+            let length = match response.header("transfer-encoding") {
+                Some(encoding) if !encoding.is_empty() => None,
+                _ => response
+                    .header("content-length")
+                    .and_then(|length| length.trim().parse::<u64>().ok()),
+            };
+            let reader = response.into_reader();
+            match length {
+                Some(remaining) => Ok(Box::new(ExactLengthReader { reader, remaining })),
+                None => Ok(Box::new(reader)),
+            }
         } else {
             Err(io::Error::new(
                 io::ErrorKind::Other,
-- 
2.43.0


From 9f6ba8f38d2d29df30bbd272aa507a632e034e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:48 +0000
Subject: [PATCH 29/40] fix: read zip archives that leave number of entries to
 zip64 record

---
 src/decompress/zip.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/decompress/zip.rs b/src/decompress/zip.rs
index cfe8238..5dc1cf9 100644
--- a/src/decompress/zip.rs
+++ b/src/decompress/zip.rs
@@ -150,11 +150,11 @@ fn get_start_of_central_dir_offset<R: Read + Seek>(
     {
         // kinda weird, but possibly just a very small compressed file with no zip64 records, so
         // assume it's a file with no zip64 records and fall back to end of central directory record
-        return Ok(eocdr.start_of_central_directory_offset as u64);
+        return eocdr.start_of_central_directory_without_zip64();
     }
 
     if reader.read_u32::<LittleEndian>()? != ZIP64_END_OF_CENTRAL_DIR_LOCATOR_SIGNATURE {
-        return Ok(eocdr.start_of_central_directory_offset as u64);
+        return eocdr.start_of_central_directory_without_zip64();
     }
 
     let zip64_eocdr_offset = read_zip64_eocdl_and_get_eocdr_offset(reader)?;
@@ -218,9 +218,20 @@ struct EndOfCentralDirRecord {
     pub central_directory_size: u32,
     pub start_of_central_directory_offset: u32,
     pub zip_file_comment_length: i64,
+    pub has_numbers_in_zip64: bool,
 }
 
 impl EndOfCentralDirRecord {
+    fn start_of_central_directory_without_zip64(&self) -> io::Result<u64> {
+        if self.has_numbers_in_zip64 {
+            return Err(Error::new(
+                ErrorKind::InvalidData,
+                "zip64 end of central directory missing",
+            ));
+        }
+        Ok(self.start_of_central_directory_offset as u64)
+    }
+
     pub fn read<T: Read + Seek>(reader: &mut T) -> io::Result<EndOfCentralDirRecord> {
         let disk_number = reader.read_u16::<LittleEndian>()?;
         let disk_number_with_start_of_central_directory = reader.read_u16::<LittleEndian>()?;
@@ -231,8 +242,12 @@ impl EndOfCentralDirRecord {
         let zip_file_comment_length = reader.read_u16::<LittleEndian>()? as i64;
         reader.seek(SeekFrom::Current(zip_file_comment_length))?;
 
-        if total_number_of_central_directory_entries != 1
-            || number_of_central_directory_entries_on_this_disk != 1
+        // numbers of entries may be left to zip64 record, which then has to be there
+        let has_numbers_in_zip64 = total_number_of_central_directory_entries == 0xffff
+            && number_of_central_directory_entries_on_this_disk == 0xffff;
+        if !has_numbers_in_zip64
+            && (total_number_of_central_directory_entries != 1
+                || number_of_central_directory_entries_on_this_disk != 1)
         {
             return Err(Error::new(
                 ErrorKind::InvalidData,
@@ -251,6 +266,7 @@ impl EndOfCentralDirRecord {
             central_directory_size,
             start_of_central_directory_offset,
             zip_file_comment_length,
+            has_numbers_in_zip64,
         })
     }
 }
-- 
2.43.0


From 43304c789d3241ce8539479300d252a089220ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:50 +0000
Subject: [PATCH 30/40] fix: don't take signature within zip archive comment
 for end of central directory

---
 src/decompress/zip.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/decompress/zip.rs b/src/decompress/zip.rs
index 5dc1cf9..5ae4bd3 100644
--- a/src/decompress/zip.rs
+++ b/src/decompress/zip.rs
@@ -120,20 +120,47 @@ fn find_eocdr_and_prepare_to_read<T: Read + io::Seek>(reader: &mut T) -> io::Res
     let max_back = std::cmp::min(file_size, MAX_EOCDR_SEARCH_BACK_OFFSET as u64) as i64;
 
     let mut pos = 4; // '4' to make sure we can read the signature
+    let mut last_signature = None;
     while pos < max_back {
         reader.seek(io::SeekFrom::End(-pos))?;
         if reader.read_u32::<LittleEndian>()? == END_OF_CENTRAL_DIR_RECORD_SIGNATURE {
-            return Ok(());
+            // comment may have the signature in it, so look for the record that spans the rest of
+            // the file
+            if is_eocdr_up_to_end_of_file(reader, pos)? {
+                reader.seek(io::SeekFrom::End(-pos + SIGNATURE_SIZE))?;
+                return Ok(());
+            }
+            last_signature = last_signature.or(Some(pos));
         }
         pos += 1;
     }
 
+    // something follows the archive
+    if let Some(pos) = last_signature {
+        reader.seek(io::SeekFrom::End(-pos + SIGNATURE_SIZE))?;
+        return Ok(());
+    }
+
     Err(Error::new(
         ErrorKind::InvalidData,
         "end of central directory signature missing",
     ))
 }
 
+// 'pos' is the distance from the signature, which has just been read, to end of file
+fn is_eocdr_up_to_end_of_file<T: Read + io::Seek>(reader: &mut T, pos: i64) -> io::Result<bool> {
+    let fixed_size = SIGNATURE_SIZE + END_OF_CENTRAL_DIRECTORY_RECORD_FIXED_FIELDS_SIZE;
+    if pos < fixed_size {
+        return Ok(false);
+    }
+    // comment length is the last one of fixed fields
+    reader.seek(SeekFrom::Current(
+        END_OF_CENTRAL_DIRECTORY_RECORD_FIXED_FIELDS_SIZE - 2,
+    ))?;
+    let comment_length = reader.read_u16::<LittleEndian>()? as i64;
+    Ok(fixed_size + comment_length == pos)
+}
+
 fn get_start_of_central_dir_offset<R: Read + Seek>(
     reader: &mut R,
     eocdr: &EndOfCentralDirRecord,
-- 
2.43.0


From 2667c7bcf6a03ec027cc397e5db633a540a5e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:00 +0000
Subject: [PATCH 31/40] fix: check header of a chain that several chains lead
 to

---
 src/chopper/header_graph.rs | 46 +++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/chopper/header_graph.rs b/src/chopper/header_graph.rs
index 57e7964..fc747c3 100644
--- a/src/chopper/header_graph.rs
+++ b/src/chopper/header_graph.rs
@@ -20,6 +20,8 @@ pub struct HeaderChain {
 
 pub struct HeaderGraph {
     header_chains: Vec<HeaderChain>,
+    // header each chain was processed with, None if not processed yet
+    processed_headers: Vec<Option<Header>>,
 }
 
 impl HeaderChain {
@@ -38,7 +40,11 @@ impl HeaderChain {
 
 impl HeaderGraph {
     pub fn new(header_chains: Vec<HeaderChain>) -> Self {
-        HeaderGraph { header_chains }
+        let processed_headers = vec![None; header_chains.len()];
+        HeaderGraph {
+            header_chains,
+            processed_headers,
+        }
     }
 
     pub fn len(&self) -> usize {
@@ -65,9 +71,17 @@ impl HeaderGraph {
         chain_id: ChainId,
         header: &mut Header,
     ) -> CliResult<Self> {
-        let chain: &mut HeaderChain = self.header_chains.get_mut(chain_id).unwrap();
+        let chain = match self.header_chains.get_mut(chain_id) {
+            Some(c) => c,
+            None => {
+                return Err(Error::from(format!(
+                    "HeaderGraph -- ChainId[{}] index out of bounds",
+                    chain_id
+                )))
+            }
+        };
         // check the first node of the chain.
-        if let HeaderNode::MergeHeaderSink(..) = chain.get_mut_nodes().get_mut(0).unwrap() {
+        if let Some(HeaderNode::MergeHeaderSink(..)) = chain.get_mut_nodes().get_mut(0) {
             // if MergeHeaderSink, check/process the header without removing the chain
             // pass to match_remove_chain only when all the Merge headers are processed
             self.check_merge_header(data_graph, chain_id, header)
@@ -89,7 +103,24 @@ impl HeaderGraph {
         chain_id: ChainId,
         header: &mut Header,
     ) -> CliResult<Self> {
+        // a chain that was processed already has to be fed the same header again
+        if let Some(processed_header) = &self.processed_headers[chain_id] {
+            if !header.eq(&processed_header) {
+                return Err(Error::from(format!(
+                    "HeaderGraph -- ChainId[{}] is fed different headers",
+                    chain_id
+                )));
+            }
+            return Ok(self);
+        }
+        let input_header = header.clone();
         let chain = self.swap_remove(chain_id);
+        if chain.nodes.is_empty() {
+            return Err(Error::from(format!(
+                "HeaderGraph -- ChainId[{}] has no nodes or feeds itself",
+                chain_id
+            )));
+        }
         // process header for all the nodes in the chain, and get DataSinks
         for node in chain.nodes {
             let data_node: DataNode;
@@ -109,7 +140,7 @@ impl HeaderGraph {
                         ));
                     }
                     for i in shs.chain_ids() {
-                        self = self.match_remove_chain(data_graph, *i, &mut header.clone())?;
+                        self = self.process_header_re(data_graph, *i, &mut header.clone())?;
                         header_count_tracker.unprocessed_count -= 1;
                     }
                     data_node = DataNode::Split(shs.chain_ids().clone());
@@ -122,6 +153,7 @@ impl HeaderGraph {
                 }
             }
         }
+        self.processed_headers[chain_id] = Some(input_header);
         Ok(self)
     }
 
@@ -131,8 +163,8 @@ impl HeaderGraph {
         chain_id: ChainId,
         header: &mut Header,
     ) -> CliResult<Self> {
-        let node: &mut HeaderNode = match self.get_mut_chain(chain_id) {
-            Some(c) => c.get_mut_nodes().get_mut(0).unwrap(),
+        let node: Option<&mut HeaderNode> = match self.get_mut_chain(chain_id) {
+            Some(c) => c.get_mut_nodes().get_mut(0),
             None => {
                 return Err(Error::from(format!(
                     "HeaderGraph -- ChainId[{}] index out of bounds",
@@ -141,7 +173,7 @@ impl HeaderGraph {
             }
         };
         match node {
-            HeaderNode::MergeHeaderSink(mhs, header_count_tracker) => {
+            Some(HeaderNode::MergeHeaderSink(mhs, header_count_tracker)) => {
                 if header_count_tracker.unprocessed_count <= 0 {
                     return Err(Error::from(
                         "HeaderGraph -- unprocessed header count must be at least 1",
-- 
2.43.0


From c34ce2b94d014a76fed9b1c07b35c07b2aa9e699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:02 +0000
Subject: [PATCH 32/40] fix: don't lose rows of a merge that gets fewer headers
 than expected

---
 src/chopper/header_graph.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/chopper/header_graph.rs b/src/chopper/header_graph.rs
index fc747c3..ad2570e 100644
--- a/src/chopper/header_graph.rs
+++ b/src/chopper/header_graph.rs
@@ -22,6 +22,8 @@ pub struct HeaderGraph {
     header_chains: Vec<HeaderChain>,
     // header each chain was processed with, None if not processed yet
     processed_headers: Vec<Option<Header>>,
+    // merging chains that were fed some headers, but not all of them yet
+    incomplete_merges: Vec<ChainId>,
 }
 
 impl HeaderChain {
@@ -44,6 +46,7 @@ impl HeaderGraph {
         HeaderGraph {
             header_chains,
             processed_headers,
+            incomplete_merges: Vec::new(),
         }
     }
 
@@ -62,6 +65,13 @@ impl HeaderGraph {
         for i in 0..header.len() {
             self = self.process_header_re(&mut data_graph, i, header.get_mut(i).unwrap())?;
         }
+        // the rows of an incomplete merge would get lost
+        if let Some(chain_id) = self.incomplete_merges.first() {
+            return Err(Error::from(format!(
+                "HeaderGraph -- merge of ChainId[{}] expects more headers",
+                chain_id
+            )));
+        }
         Ok(data_graph)
     }
 
@@ -187,7 +197,10 @@ impl HeaderGraph {
                 // next get DataSink for MergeHeaderSink and remove Merge node
                 if header_count_tracker.unprocessed_count == 0 {
                     let mut header = mhs.process_header();
+                    self.incomplete_merges.retain(|id| *id != chain_id);
                     self = self.match_remove_chain(data_graph, chain_id, &mut header)?
+                } else if !self.incomplete_merges.contains(&chain_id) {
+                    self.incomplete_merges.push(chain_id);
                 }
             }
             _ => return Err(Error::from("HeaderGraph -- expected MergeHeaderSink")),
-- 
2.43.0


From 4ff90137127d7595937827c8c7d3ae5ae93bf9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:04 +0000
Subject: [PATCH 33/40] fix: don't take the first row of a csv for its header
 because of a byte order mark

---
 src/util/csv_util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/csv_util.rs b/src/util/csv_util.rs
index 721f9a1..c807f9d 100644
--- a/src/util/csv_util.rs
+++ b/src/util/csv_util.rs
@@ -53,7 +53,8 @@ pub fn guess_delimiter(row: &str, possible_delimiters: &[u8]) -> u8 {
 pub fn guess_has_header(line1: Option<&String>, line2: Option<&String>, delimiter: u8) -> bool {
     let line1 = match line1 {
         None => return false,
-        Some(line) => line,
+        // a byte order mark is no part of the first value, csv reader drops it as well
+        Some(line) => line.strip_prefix('\u{feff}').unwrap_or(line),
     };
     let line2 = match line2 {
         None => return false,
-- 
2.43.0


From 7c801898cc6c4b6259da10ccba88e0f9e94055a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:06 +0000
Subject: [PATCH 34/40] fix: report a time zone in the environment which is not
 valid text instead of ignoring it

---
 src/util/tz.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/tz.rs b/src/util/tz.rs
index 75038f7..169fa70 100644
--- a/src/util/tz.rs
+++ b/src/util/tz.rs
@@ -32,7 +32,10 @@ impl ChopperTz {
         let timezone_arg = match cli_timezone_arg {
             None => match env::var("CHOPPER_TZ") {
                 Ok(s) => s,
-                Err(_) => return Ok(None),
+                Err(env::VarError::NotPresent) => return Ok(None),
+                Err(env::VarError::NotUnicode(s)) => {
+                    return Err(Custom(format!("Unknown timezone {:?}", s)))
+                }
             },
             Some(s) => s.to_owned(),
         };
-- 
2.43.0


From 287a04e14f65cee8432b3f92199a48de9325e773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:06 +0000
Subject: [PATCH 35/40] fix: hand on the rows that a step makes of one in
 linear time

---
 src/driver/driver.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/driver/driver.rs b/src/driver/driver.rs
index 0bdc5fe..bee745d 100644
--- a/src/driver/driver.rs
+++ b/src/driver/driver.rs
@@ -104,11 +104,12 @@ impl Driver {
                         0 => return Ok(()),
                         1 => {} // just continue
                         _ => {
-                            while rows.len() > 1 {
-                                // do all but last row recursively and the last row do iteratively
-                                let row = rows.remove(0);
+                            // do all but last row recursively and the last row do iteratively
+                            let last_row = rows.split_off(rows.len() - 1);
+                            for row in rows {
                                 self.process_row(chain_id, node_id + 1, row)?;
                             }
+                            rows = last_row;
                         }
                     }
                 }
-- 
2.43.0


From de9c2ead784cd211b0ae2b463f0f59887d11a7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:15 +0000
Subject: [PATCH 36/40] fix: take bytes out of the zst decoder all at once
 instead of moving its window for every read

---
 src/decompress/zst.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/decompress/zst.rs b/src/decompress/zst.rs
index 9cdc031..87cea99 100644
--- a/src/decompress/zst.rs
+++ b/src/decompress/zst.rs
@@ -1,9 +1,10 @@
 use ruzstd::{BlockDecodingStrategy, FrameDecoder};
-use std::io::{self, BufRead, Read};
+use std::io::{self, BufRead, Cursor, Read};
 
 pub struct ZstReader<R> {
     inner: R,
     decoder: FrameDecoder,
+    decoded: Cursor<Vec<u8>>,
 }
 
 impl<R: BufRead> ZstReader<R> {
@@ -11,6 +12,7 @@ impl<R: BufRead> ZstReader<R> {
         let mut zst_reader = ZstReader {
             inner: reader,
             decoder: FrameDecoder::new(),
+            decoded: Cursor::new(Vec::new()),
         };
         zst_reader.init()?;
         Ok(zst_reader)
@@ -43,6 +45,11 @@ impl<R: BufRead> Read for ZstReader<R> {
     /// on every invocation
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         loop {
+            let bytes_read = self.decoded.read(buf)?;
+            if bytes_read > 0 || buf.is_empty() {
+                return Ok(bytes_read);
+            }
+
             while !self.decoder.is_finished() {
                 let bytes_available = self.decoder.can_collect();
                 if bytes_available >= buf.len() {
@@ -58,9 +65,11 @@ impl<R: BufRead> Read for ZstReader<R> {
                 }
             }
 
-            let bytes_read = self.decoder.read(buf)?;
-            if bytes_read > 0 || buf.is_empty() {
-                return Ok(bytes_read);
+            // decoder moves its whole window whenever bytes are taken out,
+            // so take all of them at once
+            self.decoded = Cursor::new(self.decoder.collect().unwrap_or_default());
+            if !self.decoded.get_ref().is_empty() {
+                continue;
             }
 
             // got to the end of the frame, see if there is another one
-- 
2.43.0


From d4b549ce3e250f8bfa5ae50232e2cd4e06d188a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:32 +0000
Subject: [PATCH 37/40] fix: open a path with the first transport that can open
 it, once

It was opened by each of them, and the last one was used, so that the
built-in transports took paths away from those of the embedding program.
---
 src/transport/streaming/previewer_factory.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/transport/streaming/previewer_factory.rs b/src/transport/streaming/previewer_factory.rs
index fc6452c..0c71295 100644
--- a/src/transport/streaming/previewer_factory.rs
+++ b/src/transport/streaming/previewer_factory.rs
@@ -23,7 +23,10 @@ impl PreviewerTransportFactory {
         for factory in &mut self.transports.iter() {
             match factory.can_open(path) {
                 false => continue,
-                true => reader = Some(factory.open(path)?),
+                true => {
+                    reader = Some(factory.open(path)?);
+                    break;
+                }
             }
         }
         Ok(match reader {
-- 
2.43.0


From 11d09b2b4ada5228d1129c4862e22a09abb652cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:39 +0000
Subject: [PATCH 38/40] fix: refuse to write the output over one of the inputs

Creating the output wiped out the input before it was read, and the run
ended with status 0.
---
 src/chopper_cli.rs | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/chopper_cli.rs b/src/chopper_cli.rs
index fe0e533..2e93c33 100644
--- a/src/chopper_cli.rs
+++ b/src/chopper_cli.rs
@@ -1,4 +1,5 @@
 use std::collections::HashMap;
+use std::fs;
 
 use chrono_tz::Tz;
 use clap::{value_t, ArgMatches};
@@ -9,7 +10,7 @@ use crate::chopper::types::{Header, TimestampRange};
 use crate::cli::util::YesNoAuto;
 use crate::cli_app::CliApp;
 use crate::driver::{driver::Driver, merge_join::MergeJoin};
-use crate::error::{self, CliResult};
+use crate::error::{self, CliResult, Error};
 use crate::input::input::{Input, InputFormat, InputType};
 use crate::input::input_factory::InputFactory;
 use crate::source::csv_configs::{
@@ -150,6 +151,7 @@ fn setup_graph(
         header_nodes.push(node_merge_sink);
     }
 
+    check_output_is_not_an_input(&inputs, output)?;
     let header_sink = factory::new_header_sink(output, Some(csv_output_config))?;
     let node_hs = HeaderNode::HeaderSink(header_sink);
     header_nodes.push(node_hs);
@@ -164,6 +166,38 @@ fn setup_graph(
     )?))
 }
 
+// creating the output would wipe out the input before it is read
+fn check_output_is_not_an_input(inputs: &[Input], output: Option<&str>) -> CliResult<()> {
+    let output_path = match output.map(fs::canonicalize) {
+        Some(Ok(path)) => path,
+        // there is nothing to wipe out, if it doesn't exist yet
+        _ => return Ok(()),
+    };
+    if !output_path.is_file() {
+        return Ok(());
+    }
+
+    for input in inputs {
+        let input_path = match &input.input {
+            InputType::StdIn => continue,
+            InputType::Path(path) => match fs::canonicalize(path) {
+                Ok(path) => path,
+                // not a local file
+                Err(_) => continue,
+            },
+        };
+        // directory inputs are made of the files right in them
+        if input_path == output_path || Some(input_path.as_path()) == output_path.parent() {
+            return Err(Error::from(format!(
+                "output file is one of the inputs: {:?}",
+                output_path
+            )));
+        }
+    }
+
+    Ok(())
+}
+
 fn parse_csv_input_config(matches: &ArgMatches, timezone: ChopperTz) -> CliResult<CSVInputConfig> {
     let input_delimiter = matches.value_of("csv_in_delimiter");
     let has_header = value_t!(matches, "csv_in_has_header", YesNoAuto)?;
-- 
2.43.0


From e413af6bfdaaca973d39e379b06f143135290545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:54 +0000
Subject: [PATCH 39/40] fix: drop extra columns of later files if the first
 file has no columns

---
 src/source/multi_file_source.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/source/multi_file_source.rs b/src/source/multi_file_source.rs
index ef30c45..a9fb5bf 100644
--- a/src/source/multi_file_source.rs
+++ b/src/source/multi_file_source.rs
@@ -184,8 +184,9 @@ impl Source for SerialMultiFileSource {
                                 for (ref_idx, &new_idx) in self.swap_map.iter().enumerate() {
                                     next_row.field_values.swap(ref_idx, new_idx);
                                 }
-                                next_row.field_values.truncate(self.swap_map.len());
                             }
+                            let field_count = self.common_header.field_names().len();
+                            next_row.field_values.truncate(field_count);
                             return Ok(Some(next_row));
                         }
                     }
-- 
2.43.0


From fcde5a7c63fc0fac0ea167e5eba9041e1a24e9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:49 +0000
Subject: [PATCH 40/40] fix: do not allocate a further window at the end of
 each zst frame

---
 src/decompress/zst.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/decompress/zst.rs b/src/decompress/zst.rs
index 87cea99..b3c7284 100644
--- a/src/decompress/zst.rs
+++ b/src/decompress/zst.rs
@@ -67,7 +67,15 @@ impl<R: BufRead> Read for ZstReader<R> {
 
             // decoder moves its whole window whenever bytes are taken out,
             // so take all of them at once
-            self.decoded = Cursor::new(self.decoder.collect().unwrap_or_default());
+            let mut decoded = Vec::new();
+            if self.decoder.is_finished() {
+                // collect() would replace decoder's buffer, which is as big as the window,
+                // by another one of the same size
+                self.decoder.collect_to_writer(&mut decoded)?;
+            } else if let Some(collected) = self.decoder.collect() {
+                decoded = collected;
+            }
+            self.decoded = Cursor::new(decoded);
             if !self.decoded.get_ref().is_empty() {
                 continue;
             }
-- 
2.43.0

