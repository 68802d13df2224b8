From f3d249c15610349e3a82e611e9e141b3463c0500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:56 +0000
Subject: [PATCH 01/44] fix: reject truncated wired frames instead of
 underflowing in the checksum check

---
 crates/wired-mbus-link-layer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wired-mbus-link-layer/src/lib.rs b/crates/wired-mbus-link-layer/src/lib.rs
index 8b6743a..674593a 100644
--- a/crates/wired-mbus-link-layer/src/lib.rs
+++ b/crates/wired-mbus-link-layer/src/lib.rs
@@ -127,7 +127,7 @@ impl<'a> TryFrom<&'a [u8]> for WiredFrame<'a> {
 
 fn validate_checksum(data: &[u8]) -> Result<(), FrameError> {
     // Assuming the checksum is the second to last byte in the data array.
-    let checksum_byte_index = data.len() - 2;
+    let checksum_byte_index = data.len().checked_sub(2).ok_or(FrameError::LengthShort)?;
     let checksum_byte = *data
         .get(checksum_byte_index)
         .ok_or(FrameError::LengthShort)?;
-- 
2.43.0


From 01b0a061b8f534e91e0b01126fbcde523fd7ba0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:19 +0000
Subject: [PATCH 02/44] fix: reject wired long frames whose second start byte
 is wrong

---
 crates/wired-mbus-link-layer/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/wired-mbus-link-layer/src/lib.rs b/crates/wired-mbus-link-layer/src/lib.rs
index 674593a..4491921 100644
--- a/crates/wired-mbus-link-layer/src/lib.rs
+++ b/crates/wired-mbus-link-layer/src/lib.rs
@@ -91,6 +91,10 @@ impl<'a> TryFrom<&'a [u8]> for WiredFrame<'a> {
                     return Err(FrameError::WrongLengthIndication);
                 }
 
+                if *data.get(3).ok_or(FrameError::LengthShort)? != 0x68 {
+                    return Err(FrameError::InvalidStartByte);
+                }
+
                 if *data.last().ok_or(FrameError::LengthShort)? != 0x16 {
                     return Err(FrameError::InvalidStopByte);
                 }
-- 
2.43.0


From 13338017471557ef6d7ada399d70a9b7d2f096a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:32 +0000
Subject: [PATCH 03/44] fix: reject a single-character acknowledgement followed
 by stray bytes

---
 crates/wired-mbus-link-layer/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/wired-mbus-link-layer/src/lib.rs b/crates/wired-mbus-link-layer/src/lib.rs
index 4491921..59dec24 100644
--- a/crates/wired-mbus-link-layer/src/lib.rs
+++ b/crates/wired-mbus-link-layer/src/lib.rs
@@ -75,6 +75,9 @@ impl<'a> TryFrom<&'a [u8]> for WiredFrame<'a> {
         let first_byte = *data.first().ok_or(FrameError::EmptyData)?;
 
         if first_byte == 0xE5 {
+            if data.len() != 1 {
+                return Err(FrameError::WrongLengthIndication);
+            }
             return Ok(WiredFrame::SingleCharacter { character: 0xE5 });
         }
 
-- 
2.43.0


From 29d835dfb44b7d30c564fc54c6967a24ae871b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:12 +0000
Subject: [PATCH 04/44] fix: refuse wireless frames with a damaged CRC block
 instead of passing raw bytes on

---
 crates/wireless-mbus-link-layer/src/lib.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/wireless-mbus-link-layer/src/lib.rs b/crates/wireless-mbus-link-layer/src/lib.rs
index c3b5652..3dbab29 100644
--- a/crates/wireless-mbus-link-layer/src/lib.rs
+++ b/crates/wireless-mbus-link-layer/src/lib.rs
@@ -51,13 +51,18 @@ pub fn strip_format_a_crcs<'a>(data: &[u8], output: &'a mut [u8]) -> Option<&'a
     let mut out_pos = 10;
     output[..10].copy_from_slice(&data[..10]);
 
+    // Some receivers remove every CRC except the one of the first block.
+    let frame_len = usize::from(data[0]) + 1;
+    if data.len() == frame_len + 2 {
+        output[10..frame_len].copy_from_slice(&data[12..]);
+        return Some(&output[..frame_len]);
+    }
+
     let mut pos = 12;
     while pos < data.len() {
         let remaining = data.len() - pos;
         if remaining < 3 {
-            output[out_pos..out_pos + remaining].copy_from_slice(&data[pos..pos + remaining]);
-            out_pos += remaining;
-            break;
+            return None;
         }
 
         let max_data_len = 16.min(remaining - 2);
@@ -80,13 +85,14 @@ pub fn strip_format_a_crcs<'a>(data: &[u8], output: &'a mut [u8]) -> Option<&'a
         }
 
         if !found {
-            let remaining = data.len() - pos;
-            output[out_pos..out_pos + remaining].copy_from_slice(&data[pos..]);
-            out_pos += remaining;
-            break;
+            return None;
         }
     }
 
+    if out_pos != frame_len {
+        return None;
+    }
+
     output[0] = (out_pos - 1) as u8;
     Some(&output[..out_pos])
 }
-- 
2.43.0


From 38cce2d11db3c4b50563deb0c5a8cd468e005bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:42 +0000
Subject: [PATCH 05/44] fix: report more than ten value information extensions
 as an error instead of panicking

---
 crates/m-bus-application-layer/src/value_information.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 1675d9d..e31c55f 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -59,14 +59,12 @@ impl TryFrom<&[u8]> for ValueInformationBlock {
                 let vife_data = *data.get(offset).ok_or(DataInformationError::DataTooShort)?;
                 let current_vife = ValueInformationFieldExtension { data: vife_data };
                 let has_extension = current_vife.has_extension();
-                vife.push(current_vife);
+                vife.try_push(current_vife)
+                    .map_err(|_| DataInformationError::InvalidValueInformation)?;
                 offset += 1;
                 if !has_extension {
                     break;
                 }
-                if vife.len() > MAX_VIFE_RECORDS {
-                    return Err(DataInformationError::InvalidValueInformation);
-                }
             }
             if standard_plaintex_vib && vif.value_information_contains_ascii() {
                 plaintext_vife = Some(extract_plaintext_vife(
-- 
2.43.0


From f62b74cf18adaaa88ea08c015e743810b98892ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:58 +0000
Subject: [PATCH 06/44] fix: report a plain text unit longer than nine
 characters as an error instead of panicking

---
 crates/m-bus-application-layer/src/value_information.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index e31c55f..d6dab5e 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -89,7 +89,9 @@ fn extract_plaintext_vife(data: &[u8]) -> Result<ArrayVec<char, 9>, DataInformat
         .get(1..=ascii_length)
         .ok_or(DataInformationError::DataTooShort)?
     {
-        ascii.push(*item as char);
+        ascii
+            .try_push(*item as char)
+            .map_err(|_| DataInformationError::DataTooLong)?;
     }
     Ok(ascii)
 }
-- 
2.43.0


From 12d692b5a7804b4cc9e2e6a9b169c6ae7c18734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:13 +0000
Subject: [PATCH 07/44] fix: report the undefined value information code 7D as
 an error instead of panicking

---
 crates/m-bus-application-layer/src/value_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index d6dab5e..16a75db 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -155,7 +155,7 @@ pub struct ValueInformationFieldExtension {
 impl From<&ValueInformationField> for ValueInformationCoding {
     fn from(value_information: &ValueInformationField) -> Self {
         match value_information.data {
-            0x00..=0x7B | 0x80..=0xFA => Self::Primary,
+            0x00..=0x7B | 0x7D | 0x80..=0xFA => Self::Primary,
             0x7C | 0xFC => Self::PlainText,
             0xFD => Self::MainVIFExtension,
             0xFB => Self::AlternateVIFExtension,
-- 
2.43.0


From e371a5a14addacec27ffdc75c2c2c768024db55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:28 +0000
Subject: [PATCH 08/44] fix: report an overlong chain of combinable extensions
 as an error instead of panicking

---
 .../src/value_information.rs                       | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 16a75db..77304de 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -361,7 +361,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     &mut units,
                     &mut decimal_scale_exponent,
                     &mut decimal_offset_exponent,
-                );
+                )?;
             }
             ValueInformationCoding::MainVIFExtension => {
                 let first_vife_data = vife_slice
@@ -552,7 +552,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     &mut units,
                     &mut decimal_scale_exponent,
                     &mut decimal_offset_exponent,
-                );
+                )?;
             }
             ValueInformationCoding::AlternateVIFExtension => {
                 use UnitName::*;
@@ -684,7 +684,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     &mut units,
                     &mut decimal_scale_exponent,
                     &mut decimal_offset_exponent,
-                );
+                )?;
             }
             // we need to check if the next byte is equivalent to the length of the rest of the
             // the data. In this case it is very likely that, this is how the payload is built up.
@@ -696,7 +696,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     &mut units,
                     &mut decimal_scale_exponent,
                     &mut decimal_offset_exponent,
-                );
+                )?;
             }
             ValueInformationCoding::ManufacturerSpecific => {
                 labels.push(ValueLabel::ManufacturerSpecific)
@@ -718,13 +718,16 @@ fn consume_orthhogonal_vife(
     units: &mut ArrayVec<Unit, 10>,
     decimal_scale_exponent: &mut isize,
     decimal_offset_exponent: &mut isize,
-) {
+) -> Result<(), DataInformationError> {
     let mut is_extension_of_combinable_orthogonal_vife = false;
     for v in vife {
         if v.data == 0xFC {
             is_extension_of_combinable_orthogonal_vife = true;
             continue;
         }
+        if labels.is_full() || units.remaining_capacity() < 2 {
+            return Err(DataInformationError::DataTooLong);
+        }
         if is_extension_of_combinable_orthogonal_vife {
             is_extension_of_combinable_orthogonal_vife = false;
             match v.data & 0x7F {
@@ -966,6 +969,7 @@ fn consume_orthhogonal_vife(
             };
         }
     }
+    Ok(())
 }
 
 #[derive(Debug, Clone, Copy, PartialEq)]
-- 
2.43.0


From ceba7424b8ca78aa8e5d038561011f0436f831d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:53 +0000
Subject: [PATCH 09/44] fix: report a value header cut off inside its
 extensions as an error

---
 crates/m-bus-application-layer/src/value_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 77304de..b26d83f 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -55,7 +55,7 @@ impl TryFrom<&[u8]> for ValueInformationBlock {
                 Some(chars) if !standard_plaintex_vib => 1 + 1 + chars.len(),
                 _ => 1,
             };
-            while offset < data.len() {
+            loop {
                 let vife_data = *data.get(offset).ok_or(DataInformationError::DataTooShort)?;
                 let current_vife = ValueInformationFieldExtension { data: vife_data };
                 let has_extension = current_vife.has_extension();
-- 
2.43.0


From 25947124ce7a972e2f65e0befd2dede1c48335e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:07 +0000
Subject: [PATCH 10/44] fix: decode a zero-length variable integer as zero
 instead of panicking

---
 crates/m-bus-application-layer/src/data_information.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 683e306..88b9451 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -563,8 +563,7 @@ fn integer_to_value_internal(data: &[u8], byte_size: usize) -> Data<'_> {
         shift += 8;
     }
 
-    let msb = (data_value >> (shift - 1)) & 1;
-    let data_value = if byte_size < 8 && msb == 1 {
+    let data_value = if (1..8).contains(&byte_size) && (data_value >> (shift - 1)) & 1 == 1 {
         -((data_value ^ (2i64.pow(shift) - 1)) + 1)
     } else {
         data_value
-- 
2.43.0


From 852ba7855fc9753def842b3369851be678e8483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:22 +0000
Subject: [PATCH 11/44] fix: place storage number extension bits directly after
 the first bit

---
 crates/m-bus-application-layer/src/data_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 88b9451..849f5d8 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -217,7 +217,7 @@ impl TryFrom<&DataInformationBlock<'_>> for DataInformation {
                     return Err(DataInformationError::DataTooLong);
                 }
                 let dife = dife.data;
-                storage_number += u64::from(dife & 0x0f) << ((extension_index * 4) + 1);
+                storage_number += u64::from(dife & 0x0f) << ((extension_index - 1) * 4 + 1);
                 tariff |= u64::from((dife & 0x30) >> 4) << (tariff_index);
                 tariff_index += 2;
                 device |= u64::from((dife & 0x40) >> 6) << device_index;
-- 
2.43.0


From a1ff679a31c5a9969524d4ede0ea2b1f8adde7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:03 +0000
Subject: [PATCH 12/44] fix: take the year of date-times from the bytes that
 carry the date

---
 crates/m-bus-application-layer/src/data_information.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 849f5d8..16ca914 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -798,7 +798,7 @@ impl DataFieldCoding {
                     0
                 );
                 let month = parse_month!(input.get(3).ok_or(DataRecordError::InsufficientData)?);
-                let year = parse_year!(input, 0xF0, 0xE0, 0x7F);
+                let year = parse_year!(input.get(2..).unwrap_or(&[]), 0xF0, 0xE0, 0x7F);
 
                 Ok(Data {
                     value: Some(DataType::DateTime(day, month, year, hour, minutes)),
@@ -862,7 +862,7 @@ impl DataFieldCoding {
                     0
                 );
                 let months = parse_month!(input.get(4).ok_or(DataRecordError::InsufficientData)?);
-                let year = parse_year!(input, 0xF0, 0xE0, 0x7F);
+                let year = parse_year!(input.get(3..).unwrap_or(&[]), 0xF0, 0xE0, 0x7F);
 
                 Ok(Data {
                     value: Some(DataType::DateTimeWithSeconds(
-- 
2.43.0


From aabeaa16cdc29e117922466eea50d03cb68f1330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:18 +0000
Subject: [PATCH 13/44] fix: report the 31st of a month in date-times as that
 day, not as every day

---
 crates/m-bus-application-layer/src/data_information.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 16ca914..19282ed 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -794,7 +794,7 @@ impl DataFieldCoding {
                 let day = parse_single_or_every!(
                     input.get(2).ok_or(DataRecordError::InsufficientData)?,
                     0x1F,
-                    0x1F,
+                    0,
                     0
                 );
                 let month = parse_month!(input.get(3).ok_or(DataRecordError::InsufficientData)?);
@@ -858,7 +858,7 @@ impl DataFieldCoding {
                 let days = parse_single_or_every!(
                     input.get(3).ok_or(DataRecordError::InsufficientData)?,
                     0x1F,
-                    0x1F,
+                    0,
                     0
                 );
                 let months = parse_month!(input.get(4).ok_or(DataRecordError::InsufficientData)?);
-- 
2.43.0


From 4853a9d7290abf8a63dc3394537c3ebc170f1837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:56 +0000
Subject: [PATCH 14/44] fix: do not report a wildcard second as second zero

---
 src/output.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index 9b0fdee..106efac 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1588,11 +1588,12 @@ fn temporal_iso(
     let year = single(year);
     let hour = hour.and_then(single);
     let minute = minute.and_then(single);
+    let has_second = second.is_some();
     let second = second.and_then(single);
     match kind {
         "date" => Some(format!("{:04}-{:02}-{:02}", year?, month?, day?)),
         "time" => Some(format!("{:02}:{:02}:{:02}", hour?, minute?, second?)),
-        _ if second.is_some() => Some(format!(
+        _ if has_second => Some(format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",
             year?, month?, day?, hour?, minute?, second?
         )),
-- 
2.43.0


From 57663e407ed53998a7b065283ebcf70c0d1902c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:11 +0000
Subject: [PATCH 15/44] fix: report the every-month wildcard of dates

---
 crates/m-bus-application-layer/src/data_information.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index 19282ed..ad99ac9 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -493,6 +493,7 @@ macro_rules! parse_month {
             0xA => SingleEveryOrInvalid::Single(Month::October),
             0xB => SingleEveryOrInvalid::Single(Month::November),
             0xC => SingleEveryOrInvalid::Single(Month::December),
+            0xF => SingleEveryOrInvalid::Every(),
             _ => SingleEveryOrInvalid::Invalid(),
         }
     };
-- 
2.43.0


From e30310f29a31e88efb8341f2b3e4bcc898388901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:43 +0000
Subject: [PATCH 16/44] fix: keep date records within the length their data
 header states

---
 .../m-bus-application-layer/src/data_record.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_record.rs b/crates/m-bus-application-layer/src/data_record.rs
index a450d86..4168b0d 100644
--- a/crates/m-bus-application-layer/src/data_record.rs
+++ b/crates/m-bus-application-layer/src/data_record.rs
@@ -203,15 +203,21 @@ impl TryFrom<&RawDataRecordHeader<'_>> for ProcessedDataRecordHeader {
             // so we must do some additional checks to determine the correct data field coding
 
             if v.labels.contains(&ValueLabel::Date) {
-                d.data_field_coding = DataFieldCoding::DateTypeG;
+                if d.data_field_coding == DataFieldCoding::Integer16Bit {
+                    d.data_field_coding = DataFieldCoding::DateTypeG;
+                }
             } else if v.labels.contains(&ValueLabel::DateTime) {
                 // VIF 0x6D with a 6-byte data field is a type I date and time
                 // (EN 13757-3), only the 4-byte variant is type F.
-                d.data_field_coding = if d.data_field_coding == DataFieldCoding::Integer48Bit {
-                    DataFieldCoding::DateTimeTypeI
-                } else {
-                    DataFieldCoding::DateTimeTypeF
-                };
+                match d.data_field_coding {
+                    DataFieldCoding::Integer32Bit => {
+                        d.data_field_coding = DataFieldCoding::DateTimeTypeF;
+                    }
+                    DataFieldCoding::Integer48Bit => {
+                        d.data_field_coding = DataFieldCoding::DateTimeTypeI;
+                    }
+                    _ => {}
+                }
             } else if v.labels.contains(&ValueLabel::Time) {
                 d.data_field_coding = DataFieldCoding::DateTimeTypeJ;
             } else if v.labels.contains(&ValueLabel::DateTimeWithSeconds) {
-- 
2.43.0


From de4b204572390ff81a490682d456f814231dcc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:46 +0000
Subject: [PATCH 17/44] fix: decode cleartext records with the byte order their
 header states

---
 src/output.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/output.rs b/src/output.rs
index 106efac..430eaed 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -420,6 +420,8 @@ pub fn decode_bytes(data: &[u8], options: &DecodeOptions) -> Result<DecodedOutpu
                 parsed.data_records = decrypted_records(parsed.user_data.as_ref(), decrypted);
             } else if security.encrypted {
                 parsed.data_records = None;
+            } else if let Some(block) = parsed.user_data.as_ref() {
+                parsed.data_records = block.data_records();
             }
             return Ok(build_wired_output(
                 data,
@@ -447,6 +449,8 @@ pub fn decode_bytes(data: &[u8], options: &DecodeOptions) -> Result<DecodedOutpu
                 parsed.data_records = decrypted_records(parsed.user_data.as_ref(), decrypted);
             } else if security.encrypted {
                 parsed.data_records = None;
+            } else if let Some(block) = parsed.user_data.as_ref() {
+                parsed.data_records = block.data_records();
             }
             Ok(build_wireless_output(
                 data,
-- 
2.43.0


From 409d2a4d08711e1e969dcaaf4ee2221c982d0725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:25 +0000
Subject: [PATCH 18/44] fix: do not offer records of a payload encrypted by the
 extended link layer

---
 crates/m-bus-application-layer/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index 492f789..c2de555 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -581,10 +581,16 @@ impl<'a> UserDataBlock<'a> {
                 long_tpl_header,
             )),
             Self::VariableDataStructureWithShortTplHeader {
+                extended_link_layer,
                 short_tpl_header,
                 variable_data_block,
-                ..
-            } if !short_tpl_header.is_encrypted() => Some(parse_data_records(variable_data_block)),
+            } if !short_tpl_header.is_encrypted()
+                && !extended_link_layer
+                    .as_ref()
+                    .is_some_and(|ell| ell.encryption.is_some()) =>
+            {
+                Some(parse_data_records(variable_data_block))
+            }
             Self::VariableDataStructureWithoutTplHeader {
                 variable_data_block,
                 ..
-- 
2.43.0


From e514630b249fbd3f2ca986f2ac49e7b8ccd12818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:13 +0000
Subject: [PATCH 19/44] fix: do not mistake an extended unit code for an
 additive correction

---
 src/output.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/output.rs b/src/output.rs
index 430eaed..ab6303f 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1738,10 +1738,13 @@ fn record_offset_power10(record: &user_data::DataRecord<'_>) -> Option<isize> {
         .raw_data_record_header
         .value_information_block
         .as_ref()?;
+    // The first extension of an extended VIF is the true VIF, not a correction.
+    let true_vif = usize::from(matches!(block.value_information.data, 0xFB | 0xFD));
     block
         .value_information_extension
         .as_ref()?
         .iter()
+        .skip(true_vif)
         .filter_map(|extension| {
             let code = extension.data & 0x7F;
             (0x78..=0x7B)
-- 
2.43.0


From d46d25bddafc75998d972cf32d39f8df8c2b3941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:54 +0000
Subject: [PATCH 20/44] fix: apply scale and offset to floating point readings

---
 src/output.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index ab6303f..6c008d2 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1465,7 +1465,16 @@ fn value_output(record: &user_data::DataRecord<'_>) -> ValueOutput {
             if information
                 .is_some_and(|value| value.data_field_coding == DataFieldCoding::Real32Bit)
             {
-                let (number_value, special) = finite_number(*number);
+                let mut number = *number;
+                if number.is_finite() {
+                    if let Some(exponent) = scale.filter(|exponent| *exponent != 0) {
+                        number = format!("{number}e{exponent}").parse().unwrap_or(number);
+                    }
+                    if let Some(exponent) = offset {
+                        number += format!("1e{exponent}").parse().unwrap_or(0.0);
+                    }
+                }
+                let (number_value, special) = finite_number(number);
                 return ValueOutput {
                     kind: "float".to_string(),
                     value: number_value
-- 
2.43.0


From 0bfa4ef6e8edfba4287725f0dab634d5dcc578fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:08 +0000
Subject: [PATCH 21/44] fix: do not read manufacturer specific extensions as
 additive corrections

---
 src/output.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/output.rs b/src/output.rs
index 6c008d2..8e6ca2f 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1747,6 +1747,9 @@ fn record_offset_power10(record: &user_data::DataRecord<'_>) -> Option<isize> {
         .raw_data_record_header
         .value_information_block
         .as_ref()?;
+    if matches!(block.value_information.data, 0xFE | 0xFF) {
+        return None;
+    }
     // The first extension of an extended VIF is the true VIF, not a correction.
     let true_vif = usize::from(matches!(block.value_information.data, 0xFB | 0xFD));
     block
-- 
2.43.0


From ce8b4ce7f5b5442ca48e68afde84eada54f7f7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:52 +0000
Subject: [PATCH 22/44] fix: report all digits of long variable-length BCD
 numbers

---
 src/output.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index 8e6ca2f..83c1c91 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1679,7 +1679,25 @@ fn exact_significand(record: &user_data::DataRecord<'_>, parsed: f64) -> Option<
 fn exact_variable_significand(data: &[u8], parsed: f64) -> Option<String> {
     let marker = *data.first()?;
     match marker {
-        0xC0..=0xC9 | 0xD0..=0xD9 => Some(format!("{parsed:.0}")),
+        0xC0..=0xC9 | 0xD0..=0xD9 => {
+            let approximate = format!("{parsed:.0}");
+            // A double holds every number of up to 15 digits.
+            if data.len() <= 8 {
+                return Some(approximate);
+            }
+            let magnitude = parsed.abs();
+            let mut bytes = data.get(1..)?.to_vec();
+            for _ in 0..2 {
+                bytes.reverse();
+                let digits: String = bytes.iter().map(|byte| format!("{byte:02X}")).collect();
+                let exact: f64 = digits.parse().ok()?;
+                if (exact - magnitude).abs() <= magnitude * 1e-12 {
+                    let sign = if parsed < 0.0 { "-" } else { "" };
+                    return Some(format!("{sign}{}", digits.trim_start_matches('0')));
+                }
+            }
+            Some(approximate)
+        }
         0xE0..=0xEF => {
             let length = usize::from(marker - 0xE0);
             signed_le_decimal(data.get(1..=length)?)
-- 
2.43.0


From 6bfcfd7778f6cebc1dc230d2e0174f7d7111dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:28 +0000
Subject: [PATCH 23/44] fix: count filler bytes in the offset of an undecodable
 record

---
 crates/m-bus-application-layer/src/lib.rs |  9 ++++++++-
 src/output.rs                             | 12 ++++--------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/crates/m-bus-application-layer/src/lib.rs b/crates/m-bus-application-layer/src/lib.rs
index c2de555..fd59809 100644
--- a/crates/m-bus-application-layer/src/lib.rs
+++ b/crates/m-bus-application-layer/src/lib.rs
@@ -140,7 +140,8 @@ impl<'a> Iterator for DataRecords<'a> {
                         return Some(Ok(record));
                     }
                     Err(error) => {
-                        self.offset = self.data.len();
+                        // End here, so that `offset` keeps pointing at the bad record.
+                        self.data = self.data.get(..self.offset)?;
                         return Some(Err(error));
                     }
                 }
@@ -151,6 +152,12 @@ impl<'a> Iterator for DataRecords<'a> {
 }
 
 impl<'a> DataRecords<'a> {
+    /// Byte offset of the next record, or of the record that failed to parse.
+    #[must_use]
+    pub const fn offset(&self) -> usize {
+        self.offset
+    }
+
     #[must_use]
     pub const fn new(data: &'a [u8], long_tpl_header: Option<&'a LongTplHeader>) -> Self {
         DataRecords {
diff --git a/src/output.rs b/src/output.rs
index 83c1c91..8192fd0 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1260,15 +1260,11 @@ fn collect_records(
         return (Vec::new(), None);
     };
     let mut output = Vec::new();
-    let mut offset = 0usize;
-    for item in records.clone() {
+    let mut records = records.clone();
+    while let Some(item) = records.next() {
         match item {
-            Ok(record) => {
-                let size = record.raw_bytes().len();
-                output.push(record_output(output.len(), &record));
-                offset += size;
-            }
-            Err(error) => return (output, Some((offset, error.to_string()))),
+            Ok(record) => output.push(record_output(output.len(), &record)),
+            Err(error) => return (output, Some((records.offset(), error.to_string()))),
         }
     }
     (output, None)
-- 
2.43.0


From 976f645ba2ef2c775f60adb3deaf5e607c576a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:57 +0000
Subject: [PATCH 24/44] fix: report megawatt hour readings in watt hours

---
 crates/m-bus-application-layer/src/value_information.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index b26d83f..ce71e35 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -590,8 +590,8 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     .ok_or(DataInformationError::DataTooShort)?
                     .data;
                 match first_vife_data & 0x7F {
-                    0b0 => populate!(Watt / h, 3, dec: 5, Energy),
-                    0b000_0001 => populate!(Watt / h, 3, dec: 6, Energy),
+                    0b0 => populate!(Watt * h, 1, dec: 5, Energy),
+                    0b000_0001 => populate!(Watt * h, 1, dec: 6, Energy),
                     0b000_0010 => populate!(ReactiveWatt * h, 1, dec: 3, ReactiveEnergy),
                     0b000_0011 => populate!(ReactiveWatt * h, 1, dec: 4, ReactiveEnergy),
                     0b000_0100 => populate!(ApparentWatt * h, 1, dec: 3, ApparentEnergy),
-- 
2.43.0


From f1ce3e763e581a659e3ef7dc2600e28f69c99fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:12 +0000
Subject: [PATCH 25/44] fix: report the per-litre extension as an inverse unit

---
 crates/m-bus-application-layer/src/value_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index ce71e35..b734c7b 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -792,7 +792,7 @@ fn consume_orthhogonal_vife(
                     units.push(unit!(Increment));
                     units.push(unit!(OutputPulseOnChannel1 ^ -1));
                 }
-                0x2C => units.push(unit!(Liter)),
+                0x2C => units.push(unit!(Liter ^ -1)),
                 0x2D => units.push(unit!(Meter ^ -3)),
                 0x2E => units.push(unit!(Kilogram ^ -1)),
                 0x2F => units.push(unit!(Kelvin ^ -1)),
-- 
2.43.0


From 69063b07f328428d48d4fdf7b0ed2daf52285330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:29 +0000
Subject: [PATCH 26/44] fix: report transmission periods in minutes, not metres

---
 crates/m-bus-application-layer/src/value_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index b734c7b..aa451cb 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -452,7 +452,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                         labels.push(ValueLabel::PeriodOfNormalDataTransmission);
                     }
                     0x33 => {
-                        units.push(unit!(Meter));
+                        units.push(unit!(Minute));
                         labels.push(ValueLabel::PeriodOfNormalDataTransmission);
                     }
                     0x34 => {
-- 
2.43.0


From a3f1a9660641c3e453a9ba4c297e26b1b8d571f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:45 +0000
Subject: [PATCH 27/44] fix: report battery operating time in years where the
 code says years

---
 crates/m-bus-application-layer/src/value_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index aa451cb..a1f4e4d 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -511,7 +511,7 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                         labels.push(ValueLabel::OperatingTimeBattery);
                     }
                     0x6F => {
-                        units.push(unit!(Hour));
+                        units.push(unit!(Year));
                         labels.push(ValueLabel::OperatingTimeBattery);
                     }
                     0x70 => {
-- 
2.43.0


From c4cdda991e0e081d362c80d3e6f5ea053222533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:01 +0000
Subject: [PATCH 28/44] fix: label begin and end dates of first and last events
 correctly

---
 crates/m-bus-application-layer/src/value_information.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index a1f4e4d..dc531bd 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -951,9 +951,9 @@ fn consume_orthhogonal_vife(
                 0x69 => labels.push(ValueLabel::LeakageValues),
                 0x6D => labels.push(ValueLabel::OverflowValues),
                 0x6A => labels.push(ValueLabel::DateOfBeginFirst),
-                0x6B => labels.push(ValueLabel::DateOfBeginLast),
-                0x6E => labels.push(ValueLabel::DateOfEndLast),
-                0x6F => labels.push(ValueLabel::DateOfEndFirst),
+                0x6B => labels.push(ValueLabel::DateOfEndFirst),
+                0x6E => labels.push(ValueLabel::DateOfBeginLast),
+                0x6F => labels.push(ValueLabel::DateOfEndLast),
                 0x70..=0x77 => {
                     *decimal_scale_exponent += (v.data & 0b111) as isize - 6;
                 }
-- 
2.43.0


From ffa26f9a4765c80c4e675e2ff55e4bfaa7439e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:10 +0000
Subject: [PATCH 29/44] fix: report failed writes of the rendered output
 instead of panicking

---
 cli/src/main.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index fcd4b4d..616783c 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -1,5 +1,5 @@
 use std::fs;
-use std::io::{self, IsTerminal};
+use std::io::{self, IsTerminal, Write};
 use std::path::PathBuf;
 use std::process::ExitCode;
 use std::str::FromStr;
@@ -104,8 +104,11 @@ fn run() -> Result<(), String> {
                 },
             )
             .map_err(|error| format!("[{}] {error}", error.code()))?;
-            print!("{rendered}");
-            Ok(())
+            let mut stdout = io::stdout().lock();
+            stdout
+                .write_all(rendered.as_bytes())
+                .and_then(|()| stdout.flush())
+                .map_err(|error| format!("[output.write] failed to write output: {error}"))
         }
     }
 }
-- 
2.43.0


From fb270e1f27cc406854a8d9ebf9aca1e7f1e5829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:46 +0000
Subject: [PATCH 30/44] fix: report a cut-off date and time value instead of
 shortening it

---
 crates/m-bus-application-layer/src/data_record.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/m-bus-application-layer/src/data_record.rs b/crates/m-bus-application-layer/src/data_record.rs
index 4168b0d..6cea6c8 100644
--- a/crates/m-bus-application-layer/src/data_record.rs
+++ b/crates/m-bus-application-layer/src/data_record.rs
@@ -127,10 +127,7 @@ impl<'a> DataRecord<'a> {
             }
         };
 
-        let mut record_size = data_record_header.get_size() + data_out.get_size();
-        if record_size > data.len() {
-            record_size = data.len();
-        }
+        let record_size = data_record_header.get_size() + data_out.get_size();
         let raw_bytes = data
             .get(..record_size)
             .ok_or(DataRecordError::InsufficientData)?;
-- 
2.43.0


From 398099b8c64ba70b19395c8ac3b03179b5223a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:20 +0000
Subject: [PATCH 31/44] fix: give averaging and actuality durations their time
 unit

---
 .../src/value_information.rs                  | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index dc531bd..5552041 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -342,8 +342,26 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     0x6C => labels.push(ValueLabel::Date),
                     0x6D => labels.push(ValueLabel::DateTime),
                     0x6E => labels.push(ValueLabel::DimensionlessHCA),
-                    0x70..=0x73 => labels.push(ValueLabel::AveragingDuration),
-                    0x74..=0x77 => labels.push(ValueLabel::ActualityDuration),
+                    0x70..=0x73 => {
+                        labels.push(ValueLabel::AveragingDuration);
+                        match value_information_block.value_information.data & 0x03 {
+                            0x00 => units.push(unit!(Second)),
+                            0x01 => units.push(unit!(Minute)),
+                            0x02 => units.push(unit!(Hour)),
+                            0x03 => units.push(unit!(Day)),
+                            _ => unreachable!(),
+                        }
+                    }
+                    0x74..=0x77 => {
+                        labels.push(ValueLabel::ActualityDuration);
+                        match value_information_block.value_information.data & 0x03 {
+                            0x00 => units.push(unit!(Second)),
+                            0x01 => units.push(unit!(Minute)),
+                            0x02 => units.push(unit!(Hour)),
+                            0x03 => units.push(unit!(Day)),
+                            _ => unreachable!(),
+                        }
+                    }
                     0x78 => labels.push(ValueLabel::FabricationNumber),
                     0x79 => labels.push(ValueLabel::EnhancedIdentification),
                     0x7A => labels.push(ValueLabel::Address),
-- 
2.43.0


From 397745808bb1f1e9af7671c16ead5d9e966a6e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:23 +0000
Subject: [PATCH 32/44] fix: no leading zeros when an additive correction is
 applied to a zero reading

---
 src/output.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/output.rs b/src/output.rs
index 8192fd0..8f3984a 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1852,6 +1852,9 @@ fn add_abs(left: &str, right: &str) -> String {
         output.push(b'0' + sum % 10);
         carry = sum / 10;
     }
+    while output.len() > 1 && output.last() == Some(&b'0') {
+        output.pop();
+    }
     output.reverse();
     String::from_utf8(output).unwrap_or_else(|_| "0".to_string())
 }
-- 
2.43.0


From 8f92364e17fef37ef8ffc66adb93149842590b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:10 +0000
Subject: [PATCH 33/44] fix: a second-level VIF extension is not also an
 orthogonal code

---
 .../m-bus-application-layer/src/value_information.rs  |  6 ++++--
 src/output.rs                                         | 11 +++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/m-bus-application-layer/src/value_information.rs b/crates/m-bus-application-layer/src/value_information.rs
index 5552041..b466070 100644
--- a/crates/m-bus-application-layer/src/value_information.rs
+++ b/crates/m-bus-application-layer/src/value_information.rs
@@ -563,9 +563,11 @@ impl TryFrom<&ValueInformationBlock> for ValueInformation {
                     },
                     _ => labels.push(ValueLabel::Reserved),
                 }
-                // Skip vife_slice[0] — it's the true VIF (already consumed above)
+                // Skip vife_slice[0] — it's the true VIF (already consumed above), as is
+                // vife_slice[1] after a second-level extension
+                let true_vif = if first_vife_data == 0xFD { 2 } else { 1 };
                 consume_orthhogonal_vife(
-                    vife_slice.get(1..).unwrap_or(&[]),
+                    vife_slice.get(true_vif..).unwrap_or(&[]),
                     &mut labels,
                     &mut units,
                     &mut decimal_scale_exponent,
diff --git a/src/output.rs b/src/output.rs
index 8f3984a..07e5333 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1765,10 +1765,13 @@ fn record_offset_power10(record: &user_data::DataRecord<'_>) -> Option<isize> {
         return None;
     }
     // The first extension of an extended VIF is the true VIF, not a correction.
-    let true_vif = usize::from(matches!(block.value_information.data, 0xFB | 0xFD));
-    block
-        .value_information_extension
-        .as_ref()?
+    let extensions = block.value_information_extension.as_ref()?;
+    let true_vif = match block.value_information.data {
+        0xFD if extensions.first().is_some_and(|first| first.data == 0xFD) => 2,
+        0xFB | 0xFD => 1,
+        _ => 0,
+    };
+    extensions
         .iter()
         .skip(true_vif)
         .filter_map(|extension| {
-- 
2.43.0


From 3b7fbcc78093b5efaa9eb6e7a6e44a0289ca91eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:45 +0000
Subject: [PATCH 34/44] fix: do not summarise ciphertext of the extended link
 layer as records

---
 src/mbus_data.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index 4a22f16..89bc597 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -287,8 +287,15 @@ fn user_data_is_encrypted(user_data: Option<&user_data::UserDataBlock>) -> bool
             long_tpl_header, ..
         }) => long_tpl_header.is_encrypted(),
         Some(UserDataBlock::VariableDataStructureWithShortTplHeader {
-            short_tpl_header, ..
-        }) => short_tpl_header.is_encrypted(),
+            extended_link_layer,
+            short_tpl_header,
+            ..
+        }) => {
+            short_tpl_header.is_encrypted()
+                || extended_link_layer
+                    .as_ref()
+                    .is_some_and(|ell| ell.encryption.is_some())
+        }
         _ => false,
     }
 }
-- 
2.43.0


From 6e0568cf73fd9001dc648cd96d731fa213bbb78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:49:20 +0000
Subject: [PATCH 35/44] fix: place decrypted bytes correctly in annotated
 telegrams with a trailing CRC

---
 src/mbus_data.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index 89bc597..be19f1a 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -1371,11 +1371,12 @@ fn decrypted_wireless_hexview_data(data: &[u8], key: &[u8; 16]) -> Option<Vec<u8
     )?;
 
     let app_data_len = parsed_data.frame.data.len();
-    let app_start = wireless_data.len().checked_sub(app_data_len)?;
-    let payload_start = app_start + app_data_len.checked_sub(variable_data_len)?;
+    // The payload follows the ten link header bytes; a trailing CRC over the
+    // encrypted bytes is not shown, like the block CRCs.
+    let payload_start = 10 + app_data_len.checked_sub(variable_data_len)?;
     let payload_end = payload_start + variable_data_len;
 
-    let mut display_data = wireless_data.to_vec();
+    let mut display_data = wireless_data.get(..payload_end)?.to_vec();
     let decrypted_data = decrypted_buffer.get(..decrypted_len)?;
     display_data.splice(payload_start..payload_end, decrypted_data.iter().copied());
     if let Some(length) = display_data.len().checked_sub(1) {
-- 
2.43.0


From 5921e028abe7704ca2552c586fdac30cee5a9099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:38 +0000
Subject: [PATCH 36/44] fix: use all bytes of binary numbers wider than eight
 bytes

---
 crates/m-bus-application-layer/src/data_information.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/m-bus-application-layer/src/data_information.rs b/crates/m-bus-application-layer/src/data_information.rs
index ad99ac9..5f8d3ea 100644
--- a/crates/m-bus-application-layer/src/data_information.rs
+++ b/crates/m-bus-application-layer/src/data_information.rs
@@ -571,7 +571,15 @@ fn integer_to_value_internal(data: &[u8], byte_size: usize) -> Data<'_> {
     };
 
     let output = if byte_size > 8 {
-        DataType::LossyNumber(data_value as f64)
+        let negative = data.get(byte_size - 1).is_some_and(|byte| byte & 0x80 != 0);
+        let magnitude = data.iter().take(byte_size).rev().fold(0.0, |value, byte| {
+            value * 256.0 + f64::from(if negative { !byte } else { *byte })
+        });
+        DataType::LossyNumber(if negative {
+            -(magnitude + 1.0)
+        } else {
+            magnitude
+        })
     } else {
         DataType::Number(data_value as f64)
     };
-- 
2.43.0


From 64a7cf5de46110e0e111506a4e08c159c476f301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:54 +0000
Subject: [PATCH 37/44] fix: number records after a global readout request like
 the decoder does

---
 src/annotate.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index 5407076..efd4c1a 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -836,8 +836,22 @@ pub(crate) fn annotate_data_records(segments: &mut Vec<ByteSegment>, base: usize
                     });
                     return;
                 }
+                0x7F => {
+                    // Global readout request - a record of its own
+                    segments.push(ByteSegment {
+                        start: base + offset,
+                        end: base + offset + 1,
+                        kind: SegmentKind::Dif,
+                        detail: Cow::Borrowed("Global Readout Request: 0x7F"),
+                        group: Some(record_index),
+                        layer: Layer::RecordField,
+                    });
+                    offset += 1;
+                    record_index += 1;
+                    continue;
+                }
                 _ => {
-                    // Other special functions (0x7F etc.)
+                    // Other special functions
                     segments.push(ByteSegment {
                         start: base + offset,
                         end: base + offset + 1,
-- 
2.43.0


From 2133af8710e4a3a6a770198cc9a2fcfa91e375ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:08 +0000
Subject: [PATCH 38/44] fix: annotate radio telegrams of which only the first
 block carries a CRC

---
 src/annotate.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index efd4c1a..cb5838f 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -1010,7 +1010,13 @@ fn annotate_wireless_format_a(
     stripped: &[u8],
 ) -> Result<Vec<ByteSegment>, MbusError> {
     // Build an offset map: for each byte in the stripped buffer, what's its original offset?
-    let offset_map = build_format_a_offset_map(original);
+    // If only the first CRC was removed, everything after it is data.
+    let only_first_crc = stripped.len() + 2 == original.len();
+    let offset_map = if only_first_crc {
+        (0..10).chain(12..original.len()).collect()
+    } else {
+        build_format_a_offset_map(original)
+    };
 
     // First annotate the stripped frame
     let stripped_segments = annotate_wireless_inner(stripped)?;
@@ -1053,7 +1059,7 @@ fn annotate_wireless_format_a(
 
     // Subsequent block CRCs
     let mut pos = 12usize;
-    while pos < original.len() {
+    while pos < original.len() && !only_first_crc {
         let remaining = original.len() - pos;
         if remaining < 3 {
             break;
-- 
2.43.0


From fc4770721b181d83e15d7bc94b5598d134766d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:05 +0000
Subject: [PATCH 39/44] fix: do not panic when an error cannot be printed

---
 cli/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 616783c..9ac1f5a 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -49,7 +49,8 @@ fn main() -> ExitCode {
     match run() {
         Ok(()) => ExitCode::SUCCESS,
         Err(error) => {
-            eprintln!("error: {error}");
+            // Unlike `eprintln!`, do not panic if standard error is gone too.
+            let _ = writeln!(io::stderr(), "error: {error}");
             ExitCode::FAILURE
         }
     }
-- 
2.43.0


From da9bd79605a3d4aacf4fbfaf6eabeaabb27bf666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:39 +0000
Subject: [PATCH 40/44] fix: scale of cumulated maximum power 0x79 in the XML
 output

---
 src/rscada_xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rscada_xml.rs b/src/rscada_xml.rs
index f015f87..6e51fc1 100644
--- a/src/rscada_xml.rs
+++ b/src/rscada_xml.rs
@@ -1526,7 +1526,7 @@ const VIF_TABLE: &[(u16, f64, &str, &str)] = &[
     (0x276, 1.0e-1, "°C", "Cold / Warm Temperature Limit"),
     (0x277, 1.0e0, "°C", "Cold / Warm Temperature Limit"),
     (0x278, 1.0e-3, "W", "Cumul count max power"),
-    (0x279, 1.0e-3, "W", "Cumul count max power"),
+    (0x279, 1.0e-2, "W", "Cumul count max power"),
     (0x27A, 1.0e-1, "W", "Cumul count max power"),
     (0x27B, 1.0e0, "W", "Cumul count max power"),
     (0x27C, 1.0e1, "W", "Cumul count max power"),
-- 
2.43.0


From 89b711045014f20556b5e22ce8f7e8ac81703a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:54:15 +0000
Subject: [PATCH 41/44] fix: do not draw ciphertext as records in the older
 diagram

---
 src/mbus_data.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index be19f1a..5215621 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -955,7 +955,8 @@ pub fn parse_to_mermaid(input: &str, _key: Option<&[u8; 16]>) -> String {
                     out.push_str("    FRAME_SG --> DEV_SG\n");
                 }
 
-                if let Some(data_records) = parsed_data.data_records {
+                let encrypted = user_data_is_encrypted(parsed_data.user_data.as_ref());
+                if let Some(data_records) = parsed_data.data_records.filter(|_| !encrypted) {
                     out.push_str("    subgraph REC_SG[\"Data Records\"]\n");
                     out.push_str("");
                     let records: Vec<_> = data_records.flatten().collect();
@@ -1087,7 +1088,8 @@ pub fn parse_to_mermaid(input: &str, _key: Option<&[u8; 16]>) -> String {
             ));
         }
 
-        if let Some(data_records) = parsed_data.data_records {
+        let encrypted = user_data_is_encrypted(parsed_data.user_data.as_ref());
+        if let Some(data_records) = parsed_data.data_records.filter(|_| !encrypted) {
             out.push_str("    subgraph REC_SG[\"Data Records\"]\n");
             let records: Vec<_> = data_records.flatten().collect();
             for (i, record) in records.iter().enumerate() {
-- 
2.43.0


From ff819abbc9a29fbbbfc7a4b16a66add8ef701030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:20:51 +0000
Subject: [PATCH 42/44] fix: annotate payloads behind an encrypting link layer
 as encrypted

---
 src/annotate.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index cb5838f..8e2843b 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -616,11 +616,18 @@ fn annotate_application_layer(
                 layer: Layer::AppHeader,
             });
 
-            // No inner CI/TPL header; remaining bytes are variable data block
+            // No inner CI/TPL header; remaining bytes are the encrypted variable data block
             let remaining = &app_data[total_header..];
             let remaining_base = base + total_header;
             if !remaining.is_empty() {
-                annotate_data_records(segments, remaining_base, remaining);
+                segments.push(ByteSegment {
+                    start: remaining_base,
+                    end: remaining_base + remaining.len(),
+                    kind: SegmentKind::EncryptedPayload,
+                    detail: Cow::Borrowed("Encrypted variable data"),
+                    group: None,
+                    layer: Layer::RecordField,
+                });
             }
         }
 
@@ -661,7 +668,14 @@ fn annotate_application_layer(
             let remaining = &app_data[total_header..];
             let remaining_base = base + total_header;
             if !remaining.is_empty() {
-                annotate_data_records(segments, remaining_base, remaining);
+                segments.push(ByteSegment {
+                    start: remaining_base,
+                    end: remaining_base + remaining.len(),
+                    kind: SegmentKind::EncryptedPayload,
+                    detail: Cow::Borrowed("Encrypted variable data"),
+                    group: None,
+                    layer: Layer::RecordField,
+                });
             }
         }
 
-- 
2.43.0


From c42e87be02964cadf8a1a7ca154b75cde6bd1386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:26:24 +0000
Subject: [PATCH 43/44] fix: annotate a plain text unit before its extension
 codes when built that way

---
 src/annotate.rs | 56 ++++++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/annotate.rs b/src/annotate.rs
index 8e2843b..654b57e 100644
--- a/src/annotate.rs
+++ b/src/annotate.rs
@@ -940,39 +940,43 @@ pub(crate) fn annotate_data_records(segments: &mut Vec<ByteSegment>, base: usize
                     });
                     offset += 1;
 
-                    // VIFE bytes
-                    let vife_count = if let Some(ext) = &vib.value_information_extension {
-                        ext.len()
+                    // Plaintext VIF and VIFE bytes, in the order of the layout built for
+                    let vife_count = vib
+                        .value_information_extension
+                        .as_ref()
+                        .map_or(0, |extension| extension.len());
+                    let vife = (vife_count > 0).then(|| {
+                        (
+                            vife_count,
+                            SegmentKind::Vife,
+                            format!("VIFE: {} byte(s)", vife_count),
+                        )
+                    });
+                    let plaintext = vib.plaintext_vife.as_ref().map(|plaintext| {
+                        (
+                            plaintext.len() + 1, // 1 for length byte
+                            SegmentKind::PlaintextVif,
+                            format!(
+                                "Plaintext VIF: \"{}\"",
+                                plaintext.iter().collect::<String>()
+                            ),
+                        )
+                    });
+                    let parts = if cfg!(feature = "plaintext-before-extension") {
+                        [plaintext, vife]
                     } else {
-                        0
+                        [vife, plaintext]
                     };
-                    if vife_count > 0 {
+                    for (size, kind, detail) in parts.into_iter().flatten() {
                         segments.push(ByteSegment {
                             start: base + offset,
-                            end: base + offset + vife_count,
-                            kind: SegmentKind::Vife,
-                            detail: Cow::Owned(format!("VIFE: {} byte(s)", vife_count)),
-                            group: Some(record_index),
-                            layer: Layer::RecordField,
-                        });
-                        offset += vife_count;
-                    }
-
-                    // Plaintext VIF
-                    if let Some(plaintext) = &vib.plaintext_vife {
-                        let pt_size = plaintext.len() + 1; // 1 for length byte
-                        segments.push(ByteSegment {
-                            start: base + offset,
-                            end: base + offset + pt_size,
-                            kind: SegmentKind::PlaintextVif,
-                            detail: Cow::Owned(format!(
-                                "Plaintext VIF: \"{}\"",
-                                plaintext.iter().collect::<String>()
-                            )),
+                            end: base + offset + size,
+                            kind,
+                            detail: Cow::Owned(detail),
                             group: Some(record_index),
                             layer: Layer::RecordField,
                         });
-                        offset += pt_size;
+                        offset += size;
                     }
                 }
 
-- 
2.43.0


From 522e77c236f78cc9bc18a10a08c58f7f6df36c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:38:29 +0000
Subject: [PATCH 44/44] fix: link records to the frame when the older diagram
 draws no device

---
 src/mbus_data.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mbus_data.rs b/src/mbus_data.rs
index 5215621..270e948 100644
--- a/src/mbus_data.rs
+++ b/src/mbus_data.rs
@@ -879,6 +879,7 @@ pub fn parse_to_mermaid(input: &str, _key: Option<&[u8; 16]>) -> String {
                 styles.push_str("    style FUNC fill:#2980b9,color:#fff,stroke:#1a5276\n");
                 styles.push_str("    style ADDR fill:#2980b9,color:#fff,stroke:#1a5276\n");
 
+                let mut parent = "FRAME_SG";
                 if let Some(UserDataBlock::VariableDataStructureWithLongTplHeader {
                     long_tpl_header,
                     ..
@@ -953,6 +954,7 @@ pub fn parse_to_mermaid(input: &str, _key: Option<&[u8; 16]>) -> String {
                     }
 
                     out.push_str("    FRAME_SG --> DEV_SG\n");
+                    parent = "DEV_SG";
                 }
 
                 let encrypted = user_data_is_encrypted(parsed_data.user_data.as_ref());
@@ -987,7 +989,7 @@ pub fn parse_to_mermaid(input: &str, _key: Option<&[u8; 16]>) -> String {
                     out.push_str("    end\n");
                     styles.push_str("    style REC_SG fill:#6c3483,color:#fff,stroke:#4a235a\n");
                     styles.push_str(&pads);
-                    out.push_str("    DEV_SG --> REC_SG\n");
+                    out.push_str(&format!("    {} --> REC_SG\n", parent));
                 }
             }
             frames::WiredFrame::ShortFrame { function, address } => {
-- 
2.43.0

