From f028ad90670d8679aa93f41df3351748d8e3df60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 01/13] fix: write and read the entity marking as 11 octets

EntityMarking wrote the marking without padding or limit, so an EntityState
PDU was shorter or longer than the length it declared, and every later field
was misplaced; on input it produced the number of octets left in the buffer
as the marking and consumed nothing.
---
 src/common/data_types/entity_marking.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/common/data_types/entity_marking.rs b/src/common/data_types/entity_marking.rs
index 90938f0..8657867 100644
--- a/src/common/data_types/entity_marking.rs
+++ b/src/common/data_types/entity_marking.rs
@@ -11,6 +11,9 @@ pub struct EntityMarking {
 }
 
 impl EntityMarking {
+    /// Number of octets occupied by the marking string
+    const MARKING_LENGTH: usize = Self::LENGTH - 1;
+
     #[must_use]
     pub const fn new(
         entity_marking_character_set: EntityMarkingCharacterSet,
@@ -24,14 +27,26 @@ impl EntityMarking {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u8(self.entity_marking_character_set as u8);
-        let marking = self.entity_marking_string.clone();
-        buf.put_slice(&marking.into_bytes()[..]);
+        // The marking occupies a fixed number of octets, one per character: a shorter string is
+        // padded with NULs, a longer one is cut off
+        let characters = self
+            .entity_marking_string
+            .chars()
+            .chain(std::iter::repeat('\0'));
+        for character in characters.take(Self::MARKING_LENGTH) {
+            buf.put_u8(u8::try_from(character).unwrap_or(b'?'));
+        }
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
+        let entity_marking_character_set = EntityMarkingCharacterSet::deserialize(buf);
+        let marking: String = (0..Self::MARKING_LENGTH)
+            .map(|_| char::from(buf.get_u8()))
+            .collect();
+
         Self {
-            entity_marking_character_set: EntityMarkingCharacterSet::deserialize(buf),
-            entity_marking_string: buf.remaining().to_string(),
+            entity_marking_character_set,
+            entity_marking_string: marking.trim_end_matches('\0').to_string(),
         }
     }
 }
-- 
2.43.0


From 64ffd416d54934f48d60d3a21fa362be3d437ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 02/13] fix: write the reference number of a simulation
 identifier

It was always written as zero, and so lost.
---
 src/common/data_types/simulation_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/data_types/simulation_id.rs b/src/common/data_types/simulation_id.rs
index 20347c5..e00fd05 100644
--- a/src/common/data_types/simulation_id.rs
+++ b/src/common/data_types/simulation_id.rs
@@ -28,7 +28,7 @@ impl SimulationIdentifier {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         self.simulation_address.serialize(buf);
-        buf.put_u16(0u16);
+        buf.put_u16(self.reference_number);
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-- 
2.43.0


From 3d086bc76ddf7be64ff04100308a0745349e61c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 03/13] fix: write the other dead reckoning parameters

They were always written as zeros, and so lost.
---
 src/common/data_types/dead_reckoning_parameters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/data_types/dead_reckoning_parameters.rs b/src/common/data_types/dead_reckoning_parameters.rs
index c13d7ac..ae85a96 100644
--- a/src/common/data_types/dead_reckoning_parameters.rs
+++ b/src/common/data_types/dead_reckoning_parameters.rs
@@ -42,7 +42,7 @@ impl DeadReckoningParameters {
 
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u8(self.dead_reckoning_algorithm as u8);
-        buf.put_bytes(0u8, 15);
+        buf.put_slice(&self.dead_reckoning_other_parameters);
         self.entity_linear_acceleration.serialize(buf);
         self.entity_angular_velocity.serialize(buf);
     }
-- 
2.43.0


From 88aef199260a6f90797eaafeee5efcd527f92775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 04/13] fix: count, read and size the padding of a variable
 datum record

The padding to a 64-bit boundary was written but not counted in the length,
and not consumed on input; the decoded value was preceded by as many zero
octets as it is long, in a vector reserved from the declared length alone.
---
 src/common/data_types/datum_records.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/common/data_types/datum_records.rs b/src/common/data_types/datum_records.rs
index e257812..d7e15ab 100644
--- a/src/common/data_types/datum_records.rs
+++ b/src/common/data_types/datum_records.rs
@@ -60,6 +60,11 @@ impl VariableDatumRecord {
         (length_bits as usize).div_ceil(8)
     }
 
+    /// Number of octets that pad the value to a 64-bit boundary
+    const fn padding_count(length_bits: u32) -> usize {
+        ((64 - (length_bits % 64)) % 64 / 8) as usize
+    }
+
     pub fn serialize(&self, buf: &mut BytesMut) {
         buf.put_u32(self.datum_id);
         buf.put_u32(self.length_bits);
@@ -72,14 +77,7 @@ impl VariableDatumRecord {
             buf.put_u8(self.value[i]);
         }
 
-        let pad_bits = (64u32 - (self.length_bits % 64)) % 64;
-        let pad_bytes = (pad_bits / 8) as usize;
-        if pad_bytes > 0 {
-            let zeros = vec![0u8; pad_bytes];
-            for z in zeros {
-                buf.put_u8(z);
-            }
-        }
+        buf.put_bytes(0, Self::padding_count(self.length_bits));
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
@@ -87,10 +85,13 @@ impl VariableDatumRecord {
         let length_bits = buf.get_u32();
         let value_bytes = Self::bytes_count(length_bits);
 
-        let mut value = vec![0u8; value_bytes];
+        let mut value: Vec<u8> = vec![];
         for _ in 0..value_bytes {
             value.push(buf.get_u8());
         }
+        for _ in 0..Self::padding_count(length_bits) {
+            buf.get_u8();
+        }
 
         Self {
             datum_id,
@@ -114,6 +115,9 @@ impl FieldDeserialize for VariableDatumRecord {
 
 impl FieldLen for VariableDatumRecord {
     fn field_len(&self) -> usize {
-        self.datum_id.field_len() + self.length_bits.field_len() + self.value.field_len()
+        self.datum_id.field_len()
+            + self.length_bits.field_len()
+            + self.value.field_len()
+            + Self::padding_count(self.length_bits)
     }
 }
-- 
2.43.0


From 3a6148ad8a3097b3c15a4499fa4de05b857d091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 05/13] fix: record set sizes over 65535 octets, and unequal to
 their values

The number of octets of a record set was computed in 16 bits, which
overflows, and its serialization indexed past the end of values shorter than
declared, or dropped the excess although it is counted in the length.
---
 src/common/data_types/record_specification_element.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/common/data_types/record_specification_element.rs b/src/common/data_types/record_specification_element.rs
index aa36fa8..7c4e50c 100644
--- a/src/common/data_types/record_specification_element.rs
+++ b/src/common/data_types/record_specification_element.rs
@@ -39,10 +39,7 @@ impl RecordSpecificationElement {
         buf.put_u32(self.record_set_serial_number);
         buf.put_u16(self.record_length);
         buf.put_u16(self.record_count);
-        let num_record_values: usize = (self.record_length * self.record_count).into();
-        for i in 0..num_record_values {
-            buf.put_u8(self.record_values[i]);
-        }
+        buf.put_slice(&self.record_values);
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
@@ -50,7 +47,7 @@ impl RecordSpecificationElement {
         let record_set_serial_number = buf.get_u32();
         let record_length = buf.get_u16();
         let record_count = buf.get_u16();
-        let num_record_values = record_length * record_count;
+        let num_record_values = u32::from(record_length) * u32::from(record_count);
         let mut record_values: Vec<u8> = vec![];
         for _ in 0..num_record_values {
             record_values.push(buf.get_u8());
-- 
2.43.0


From f4f3e0db5536c02c1dc22ef07f97d66a0d103eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 06/13] fix: refuse PDUs over the maximum size of 8192 octets

calculate_length, and so serialize, reported PduSizeExceeded with a limit of
8192 octets only over 65535 octets, when the length does not fit its field.
---
 src/pdu_macro.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 48aa5cf..a1ef230 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -284,10 +284,13 @@ macro_rules! define_pdu {
                     len += <$ftype as $crate::pdu_macro::FieldLen>::field_len(&self.$field);
                 )*
 
-                u16::try_from(len).map_err(|_| $crate::common::dis_error::DISError::PduSizeExceeded {
-                    size: len,
-                    max_size: $crate::common::constants::MAX_PDU_SIZE_OCTETS,
-                })
+                u16::try_from(len)
+                    .ok()
+                    .filter(|_| $crate::common::constants::validate_pdu_size(len))
+                    .ok_or($crate::common::dis_error::DISError::PduSizeExceeded {
+                        size: len,
+                        max_size: $crate::common::constants::MAX_PDU_SIZE_OCTETS,
+                    })
             }
 
             fn header(&self) -> &Self::Header {
-- 
2.43.0


From 399ce8217595c8ef742a4ebc9a657429d29b13bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 07/13] fix: check the PDU type when decoding with a pre-parsed
 header

deserialize_without_header accepted the header of any PDU, against its
documented error.
---
 src/pdu_macro.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index a1ef230..5e69aa3 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -331,6 +331,11 @@ macro_rules! define_pdu {
                 // deserialize header using its associated function
                 let header: Self::Header = <Self::Header as $crate::pdu_macro::FieldDeserialize>::deserialize_field(buf);
 
+                Self::deserialize_without_header(buf, header)
+            }
+
+            fn deserialize_without_header<B: bytes::Buf>(buf: &mut B, header: Self::Header) -> Result<Self, $crate::common::dis_error::DISError>
+            where Self: Sized {
                 // check PDU type (assumes header exposes pdu_type() method; adapt if different)
                 if header.pdu_type() != $pdu_type {
                     return Err($crate::common::dis_error::DISError::invalid_header(
@@ -345,13 +350,6 @@ macro_rules! define_pdu {
                 Ok(body)
             }
 
-            fn deserialize_without_header<B: bytes::Buf>(buf: &mut B, header: Self::Header) -> Result<Self, $crate::common::dis_error::DISError>
-            where Self: Sized {
-                let mut body = Self::deserialize_body(buf);
-                body.header = header;
-                Ok(body)
-            }
-
             fn as_any(&self) -> &dyn std::any::Any {
                 self
             }
-- 
2.43.0


From ae821dfd392f0c3a2c70af690e9c85dfe44c914f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 08/13] fix: report missing octets when decoding instead of
 panicking

Decoding a message shorter than its header, than its declared length, or
than its fields and the counts in it call for panicked in the underlying
buffer, so any truncated datagram brought a receiver down. A count of up to
2^32 elements also made the decoder loop, or reserve memory, for elements
that are not there. Decoding reads within the declared length and returns
BufferUnderflow when that is not enough; it consumes exactly that length.
---
 src/common/data_types/antenna_pattern.rs      |   9 +-
 src/common/data_types/attribute_record.rs     |   7 +-
 src/common/data_types/attribute_record_set.rs |   8 +-
 src/common/data_types/datum_records.rs        |   7 +-
 .../electromagnetic_emission_beam_data.rs     |   8 +-
 .../electromagnetic_emission_system_data.rs   |   8 +-
 src/common/data_types/grid_axis_descriptor.rs |   7 +-
 src/common/data_types/grid_data_record.rs     |  17 +--
 .../data_types/modulation_parameters.rs       |   9 +-
 src/common/data_types/record_specification.rs |   8 +-
 .../record_specification_element.rs           |   7 +-
 .../data_types/standard_variable_records.rs   |   7 +-
 .../standard_variable_specification.rs        |  13 +-
 .../variable_transmitter_parameters.rs        |   7 +-
 src/pdu_macro.rs                              | 139 +++++++++++++++++-
 15 files changed, 178 insertions(+), 83 deletions(-)

diff --git a/src/common/data_types/antenna_pattern.rs b/src/common/data_types/antenna_pattern.rs
index 554b2fd..c2a3f62 100644
--- a/src/common/data_types/antenna_pattern.rs
+++ b/src/common/data_types/antenna_pattern.rs
@@ -2,7 +2,9 @@
 //     Copyright (C) 2025 Cameron Howell
 //
 //     Licensed under the BSD-2-Clause License
-use crate::pdu_macro::{FieldDeserialize, FieldDeserializeWithLen, FieldLen, FieldSerialize};
+use crate::pdu_macro::{
+    FieldDeserialize, FieldDeserializeWithLen, FieldLen, FieldSerialize, deserialize_list,
+};
 use bytes::{Buf, BufMut, BytesMut};
 
 #[derive(Clone, Debug, Default)]
@@ -54,10 +56,7 @@ impl AntennaPattern {
             return None;
         }
 
-        let mut record_specific_fields: Vec<u8> = vec![];
-        for _ in 0..length {
-            record_specific_fields.push(buf.get_u8());
-        }
+        let record_specific_fields: Vec<u8> = deserialize_list(buf, length.into());
 
         Some(Self {
             record_specific_fields,
diff --git a/src/common/data_types/attribute_record.rs b/src/common/data_types/attribute_record.rs
index f8eb753..848bd72 100644
--- a/src/common/data_types/attribute_record.rs
+++ b/src/common/data_types/attribute_record.rs
@@ -6,7 +6,7 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, deserialize_list};
 
 #[derive(Clone, Debug, Default)]
 pub struct AttributeRecord {
@@ -36,10 +36,7 @@ impl AttributeRecord {
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
         let record_type = buf.get_u32();
         let record_length = buf.get_u16();
-        let mut record_specific_fields: Vec<u8> = vec![];
-        for _ in 0..record_length {
-            record_specific_fields.push(buf.get_u8());
-        }
+        let record_specific_fields: Vec<u8> = deserialize_list(buf, record_length.into());
         Self {
             record_type,
             record_length,
diff --git a/src/common/data_types/attribute_record_set.rs b/src/common/data_types/attribute_record_set.rs
index c2d39ae..f1d7cf0 100644
--- a/src/common/data_types/attribute_record_set.rs
+++ b/src/common/data_types/attribute_record_set.rs
@@ -11,7 +11,7 @@ use crate::{
         SerializedLength,
         data_types::{EntityId, attribute_record::AttributeRecord},
     },
-    pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize},
+    pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, deserialize_list},
 };
 
 #[derive(Clone, Debug, Default)]
@@ -42,10 +42,8 @@ impl AttributeRecordSet {
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
         let entity_id = EntityId::deserialize(buf);
         let number_of_attribute_records = buf.get_u16();
-        let mut attribute_records: Vec<AttributeRecord> = vec![];
-        for _ in 0..number_of_attribute_records {
-            attribute_records.push(AttributeRecord::deserialize(buf));
-        }
+        let attribute_records: Vec<AttributeRecord> =
+            deserialize_list(buf, number_of_attribute_records.into());
         Self {
             entity_id,
             number_of_attribute_records,
diff --git a/src/common/data_types/datum_records.rs b/src/common/data_types/datum_records.rs
index d7e15ab..54d96e6 100644
--- a/src/common/data_types/datum_records.rs
+++ b/src/common/data_types/datum_records.rs
@@ -6,7 +6,7 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, deserialize_list};
 
 #[derive(Clone, Debug)]
 pub struct FixedDatumRecord {
@@ -85,10 +85,7 @@ impl VariableDatumRecord {
         let length_bits = buf.get_u32();
         let value_bytes = Self::bytes_count(length_bits);
 
-        let mut value: Vec<u8> = vec![];
-        for _ in 0..value_bytes {
-            value.push(buf.get_u8());
-        }
+        let value: Vec<u8> = deserialize_list(buf, value_bytes);
         for _ in 0..Self::padding_count(length_bits) {
             buf.get_u8();
         }
diff --git a/src/common/data_types/electromagnetic_emission_beam_data.rs b/src/common/data_types/electromagnetic_emission_beam_data.rs
index 0136474..fc49e0a 100644
--- a/src/common/data_types/electromagnetic_emission_beam_data.rs
+++ b/src/common/data_types/electromagnetic_emission_beam_data.rs
@@ -1,6 +1,6 @@
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, deserialize_list};
 
 use super::{
     fundamental_parameter_data::FundamentalParameterData, track_jam_target::TrackJamTarget,
@@ -46,10 +46,8 @@ impl ElectromagneticEmissionBeamData {
         let high_density_track_jam = buf.get_u8();
         let pad4 = buf.get_u8();
         let jamming_mode_sequence = buf.get_u32();
-        let mut track_jam_targets: Vec<TrackJamTarget> = vec![];
-        for _i in 0..number_of_track_jam_targets {
-            track_jam_targets.push(TrackJamTarget::deserialize(buf));
-        }
+        let track_jam_targets: Vec<TrackJamTarget> =
+            deserialize_list(buf, number_of_track_jam_targets.into());
 
         Self {
             beam_data_length,
diff --git a/src/common/data_types/electromagnetic_emission_system_data.rs b/src/common/data_types/electromagnetic_emission_system_data.rs
index f324089..46c1713 100644
--- a/src/common/data_types/electromagnetic_emission_system_data.rs
+++ b/src/common/data_types/electromagnetic_emission_system_data.rs
@@ -6,7 +6,7 @@ use bytes::{Buf, BufMut, BytesMut};
 
 use crate::{
     common::{SerializedLength, data_types::vector3_float::Vector3Float},
-    pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize},
+    pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, deserialize_list},
 };
 
 #[derive(Clone, Debug, Default)]
@@ -37,10 +37,8 @@ impl ElectromagneticEmissionSystemData {
         let emissionspadding2 = buf.get_u16();
         let emitter_system = EmitterSystem::deserialize(buf);
         let location = Vector3Float::deserialize(buf);
-        let mut beam_data_records: Vec<ElectromagneticEmissionBeamData> = vec![];
-        for _i in 0..number_of_beams {
-            beam_data_records.push(ElectromagneticEmissionBeamData::deserialize(buf));
-        }
+        let beam_data_records: Vec<ElectromagneticEmissionBeamData> =
+            deserialize_list(buf, number_of_beams.into());
 
         Self {
             system_data_length,
diff --git a/src/common/data_types/grid_axis_descriptor.rs b/src/common/data_types/grid_axis_descriptor.rs
index a5d7961..a87098d 100644
--- a/src/common/data_types/grid_axis_descriptor.rs
+++ b/src/common/data_types/grid_axis_descriptor.rs
@@ -7,7 +7,7 @@ use bytes::{Buf, BufMut, BytesMut};
 
 use crate::{
     common::enums::GridAxisDescriptorAxisType,
-    pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize},
+    pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, deserialize_list},
 };
 
 #[derive(Clone, Debug, PartialEq)]
@@ -134,10 +134,7 @@ impl GridAxisDescriptor {
                 let initial_index = buf.get_u16();
                 let coordinate_scale_x = buf.get_f64();
                 let coordinate_offset_x = buf.get_f64();
-                let mut x_values: Vec<u16> = vec![];
-                for _ in 0..number_of_points_on_x_axis {
-                    x_values.push(buf.get_u16());
-                }
+                let x_values: Vec<u16> = deserialize_list(buf, number_of_points_on_x_axis.into());
                 let mut padding: Vec<u8> = vec![];
                 while buf.has_remaining() {
                     padding.push(buf.get_u8());
diff --git a/src/common/data_types/grid_data_record.rs b/src/common/data_types/grid_data_record.rs
index c64ed29..81fa580 100644
--- a/src/common/data_types/grid_data_record.rs
+++ b/src/common/data_types/grid_data_record.rs
@@ -7,7 +7,7 @@ use bytes::{Buf, BufMut, BytesMut};
 
 use crate::{
     common::enums::{GriddedDataDataRepresentation, GriddedDataSampleType},
-    pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize},
+    pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, deserialize_list},
 };
 
 #[derive(Clone, Debug, PartialEq)]
@@ -136,10 +136,7 @@ impl GridDataRecord {
         let data = match data_representation {
             GriddedDataDataRepresentation::Type0 => {
                 let number_of_octets = buf.get_u16();
-                let mut data_values: Vec<u8> = vec![];
-                for _ in 0..number_of_octets {
-                    data_values.push(buf.get_u8());
-                }
+                let data_values: Vec<u8> = deserialize_list(buf, number_of_octets.into());
                 let mut padding: Vec<u8> = vec![];
                 while buf.has_remaining() {
                     padding.push(buf.get_u8());
@@ -155,10 +152,7 @@ impl GridDataRecord {
                 let field_scale = buf.get_f32();
                 let field_offset = buf.get_f32();
                 let number_of_values = buf.get_u16();
-                let mut data_values: Vec<u16> = vec![];
-                for _ in 0..number_of_values {
-                    data_values.push(buf.get_u16());
-                }
+                let data_values: Vec<u16> = deserialize_list(buf, number_of_values.into());
                 let mut padding: Vec<u8> = vec![];
                 while buf.has_remaining() {
                     padding.push(buf.get_u8());
@@ -175,10 +169,7 @@ impl GridDataRecord {
             GriddedDataDataRepresentation::Type2 => {
                 let number_of_values = buf.get_u16();
                 let padding = buf.get_u16();
-                let mut data_values: Vec<f32> = vec![];
-                for _ in 0..number_of_values {
-                    data_values.push(buf.get_f32());
-                }
+                let data_values: Vec<f32> = deserialize_list(buf, number_of_values.into());
 
                 DataRepresentationType::Type2 {
                     number_of_values,
diff --git a/src/common/data_types/modulation_parameters.rs b/src/common/data_types/modulation_parameters.rs
index 899a01b..e7172e1 100644
--- a/src/common/data_types/modulation_parameters.rs
+++ b/src/common/data_types/modulation_parameters.rs
@@ -5,7 +5,9 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldDeserializeWithLen, FieldLen, FieldSerialize};
+use crate::pdu_macro::{
+    FieldDeserialize, FieldDeserializeWithLen, FieldLen, FieldSerialize, deserialize_list,
+};
 
 #[derive(Clone, Debug, Default)]
 pub struct ModulationParameters {
@@ -31,10 +33,7 @@ impl ModulationParameters {
             return None;
         }
 
-        let mut record_specific_fields: Vec<u8> = vec![];
-        for _ in 0..length {
-            record_specific_fields.push(buf.get_u8());
-        }
+        let record_specific_fields: Vec<u8> = deserialize_list(buf, length.into());
 
         Some(Self {
             record_specific_fields,
diff --git a/src/common/data_types/record_specification.rs b/src/common/data_types/record_specification.rs
index ec3bb37..8c2851f 100644
--- a/src/common/data_types/record_specification.rs
+++ b/src/common/data_types/record_specification.rs
@@ -5,7 +5,7 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, deserialize_list};
 
 use super::record_specification_element::RecordSpecificationElement;
 
@@ -36,10 +36,8 @@ impl RecordSpecification {
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
         let number_of_record_sets = buf.get_u32();
-        let mut record_sets: Vec<RecordSpecificationElement> = vec![];
-        for _i in 0..number_of_record_sets {
-            record_sets.push(RecordSpecificationElement::deserialize(buf));
-        }
+        let record_sets: Vec<RecordSpecificationElement> =
+            deserialize_list(buf, number_of_record_sets as usize);
         Self {
             number_of_record_sets,
             record_sets,
diff --git a/src/common/data_types/record_specification_element.rs b/src/common/data_types/record_specification_element.rs
index 7c4e50c..37265cc 100644
--- a/src/common/data_types/record_specification_element.rs
+++ b/src/common/data_types/record_specification_element.rs
@@ -5,7 +5,7 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, deserialize_list};
 
 #[derive(Clone, Debug)]
 pub struct RecordSpecificationElement {
@@ -48,10 +48,7 @@ impl RecordSpecificationElement {
         let record_length = buf.get_u16();
         let record_count = buf.get_u16();
         let num_record_values = u32::from(record_length) * u32::from(record_count);
-        let mut record_values: Vec<u8> = vec![];
-        for _ in 0..num_record_values {
-            record_values.push(buf.get_u8());
-        }
+        let record_values: Vec<u8> = deserialize_list(buf, num_record_values as usize);
 
         Self {
             record_id,
diff --git a/src/common/data_types/standard_variable_records.rs b/src/common/data_types/standard_variable_records.rs
index 6c92b8c..1abe22b 100644
--- a/src/common/data_types/standard_variable_records.rs
+++ b/src/common/data_types/standard_variable_records.rs
@@ -5,7 +5,7 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, deserialize_list};
 
 #[derive(Clone, Debug, Default)]
 pub struct StandardVariableRecords {
@@ -39,10 +39,7 @@ impl StandardVariableRecords {
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
         let record_type = buf.get_u32();
         let record_length = buf.get_u16();
-        let mut record_specific_fields: Vec<u8> = vec![];
-        for _i in 0..record_length {
-            record_specific_fields.push(buf.get_u8());
-        }
+        let record_specific_fields: Vec<u8> = deserialize_list(buf, record_length.into());
         Self {
             record_type,
             record_length,
diff --git a/src/common/data_types/standard_variable_specification.rs b/src/common/data_types/standard_variable_specification.rs
index 9dde747..f82d694 100644
--- a/src/common/data_types/standard_variable_specification.rs
+++ b/src/common/data_types/standard_variable_specification.rs
@@ -4,7 +4,7 @@
 //     Licensed under the BSD-2-Clause License
 
 use super::standard_variable_records::StandardVariableRecords;
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, deserialize_list};
 use bytes::{Buf, BufMut, BytesMut};
 
 #[derive(Clone, Debug, Default)]
@@ -34,10 +34,8 @@ impl StandardVariableSpecification {
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
         let number_of_standard_variable_records = buf.get_u16();
-        let mut standard_variable_records: Vec<StandardVariableRecords> = vec![];
-        for _i in 0..number_of_standard_variable_records {
-            standard_variable_records.push(StandardVariableRecords::deserialize(buf));
-        }
+        let standard_variable_records: Vec<StandardVariableRecords> =
+            deserialize_list(buf, number_of_standard_variable_records.into());
         Self {
             number_of_standard_variable_records,
             standard_variable_records,
@@ -55,10 +53,7 @@ impl FieldSerialize for StandardVariableSpecification {
 impl FieldDeserialize for StandardVariableSpecification {
     fn deserialize_field<B: Buf>(buf: &mut B) -> Self {
         let number_of_standard_variable_records = buf.get_u16();
-        let mut records = Vec::with_capacity(number_of_standard_variable_records as usize);
-        for _ in 0..number_of_standard_variable_records {
-            records.push(StandardVariableRecords::deserialize_field(buf));
-        }
+        let records = deserialize_list(buf, number_of_standard_variable_records.into());
         Self {
             number_of_standard_variable_records,
             standard_variable_records: records,
diff --git a/src/common/data_types/variable_transmitter_parameters.rs b/src/common/data_types/variable_transmitter_parameters.rs
index f6764d2..1d7f38f 100644
--- a/src/common/data_types/variable_transmitter_parameters.rs
+++ b/src/common/data_types/variable_transmitter_parameters.rs
@@ -5,7 +5,7 @@
 use bytes::{Buf, BufMut, BytesMut};
 
 use crate::common::enums::VariableParameterRecordType;
-use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize};
+use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, deserialize_list};
 
 #[derive(Clone, Debug, Default)]
 pub struct VariableTransmitterParameters {
@@ -49,10 +49,7 @@ impl VariableTransmitterParameters {
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
         let record_type = VariableParameterRecordType::deserialize(buf);
         let record_length = buf.get_u16();
-        let mut record_specific_fields: Vec<u8> = vec![];
-        for _ in 0..record_length {
-            record_specific_fields.push(buf.get_u8());
-        }
+        let record_specific_fields: Vec<u8> = deserialize_list(buf, record_length.into());
 
         Self {
             record_type,
diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index 5e69aa3..ad6959f 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -10,6 +10,8 @@
 
 use bytes::{Buf, BufMut, BytesMut};
 
+use crate::common::dis_error::DISError;
+
 /// Serialize a single field into the buffer.
 pub trait FieldSerialize {
     fn serialize_field(&self, buf: &mut BytesMut);
@@ -47,6 +49,124 @@ where
     }
 }
 
+/// Deserialize a list of `count` items. The list ends early when the input does, with the item
+/// whose reading fails: a count is no promise that there is anything to read.
+pub fn deserialize_list<T: FieldDeserialize, B: Buf>(buf: &mut B, count: usize) -> Vec<T> {
+    let mut items = vec![];
+    for _ in 0..count {
+        let is_exhausted = !buf.has_remaining();
+        items.push(T::deserialize_field(buf));
+        if is_exhausted {
+            break;
+        }
+    }
+    items
+}
+
+/// Reads the body of one PDU, no further than the length declared for it. Reading more octets
+/// than that yields zeros, and makes `finish` report the underflow.
+pub struct BodyReader<'a, B: Buf> {
+    buf: &'a mut B,
+    remaining: usize,
+    underflow: Option<(usize, usize)>,
+}
+
+impl<'a, B: Buf> BodyReader<'a, B> {
+    /// # Errors
+    ///
+    /// Will return `DISError` if there are fewer than `length` octets in the buffer
+    pub fn new(buf: &'a mut B, length: usize) -> Result<Self, DISError> {
+        let available = buf.remaining();
+        if available < length {
+            return Err(DISError::buffer_underflow(length, available));
+        }
+        Ok(Self {
+            buf,
+            remaining: length,
+            underflow: None,
+        })
+    }
+
+    /// Skips the octets of the body that have not been read.
+    ///
+    /// # Errors
+    ///
+    /// Will return `DISError` if more octets have been asked for than the body has
+    pub fn finish(self) -> Result<(), DISError> {
+        if let Some((attempted, available)) = self.underflow {
+            return Err(DISError::buffer_underflow(attempted, available));
+        }
+        self.buf.advance(self.remaining);
+        Ok(())
+    }
+
+    const fn claim(&mut self, count: usize) -> bool {
+        if count > self.remaining {
+            if self.underflow.is_none() {
+                self.underflow = Some((count, self.remaining));
+            }
+            self.remaining = 0;
+            return false;
+        }
+        self.remaining -= count;
+        true
+    }
+
+    fn get_array<const N: usize>(&mut self) -> [u8; N] {
+        let mut octets = [0; N];
+        self.copy_to_slice(&mut octets);
+        octets
+    }
+}
+
+macro_rules! get_checked {
+    ($($get:ident -> $ty:ty,)*) => {
+        $(
+            fn $get(&mut self) -> $ty {
+                <$ty>::from_be_bytes(self.get_array())
+            }
+        )*
+    };
+}
+
+impl<B: Buf> Buf for BodyReader<'_, B> {
+    fn remaining(&self) -> usize {
+        self.remaining
+    }
+
+    fn chunk(&self) -> &[u8] {
+        let chunk = self.buf.chunk();
+        &chunk[..chunk.len().min(self.remaining)]
+    }
+
+    fn advance(&mut self, count: usize) {
+        if self.claim(count) {
+            self.buf.advance(count);
+        }
+    }
+
+    fn copy_to_slice(&mut self, octets: &mut [u8]) {
+        if self.claim(octets.len()) {
+            self.buf.copy_to_slice(octets);
+        } else {
+            octets.fill(0);
+        }
+    }
+
+    get_checked! {
+        get_u8 -> u8,
+        get_i8 -> i8,
+        get_u16 -> u16,
+        get_i16 -> i16,
+        get_u32 -> u32,
+        get_i32 -> i32,
+        get_u64 -> u64,
+        get_i64 -> i64,
+        get_f32 -> f32,
+        get_f64 -> f64,
+    }
+}
+
 // Helper macros for generated code. These are kept private to the macro expansion
 // but exported so they can be used from the `define_pdu!` expansion.
 #[macro_export]
@@ -328,6 +448,14 @@ macro_rules! define_pdu {
 
             fn deserialize<B: bytes::Buf>(buf: &mut B) -> Result<Self, $crate::common::dis_error::DISError>
             where Self: Sized {
+                let available = buf.remaining();
+                if available < <$header>::LENGTH {
+                    return Err($crate::common::dis_error::DISError::buffer_underflow(
+                        <$header>::LENGTH,
+                        available,
+                    ));
+                }
+
                 // deserialize header using its associated function
                 let header: Self::Header = <Self::Header as $crate::pdu_macro::FieldDeserialize>::deserialize_field(buf);
 
@@ -344,8 +472,17 @@ macro_rules! define_pdu {
                     ));
                 }
 
+                let Some(body_length) = usize::from(header.length()).checked_sub(<$header>::LENGTH) else {
+                    return Err($crate::common::dis_error::DISError::invalid_header(
+                        format!("PDU length {} is shorter than the header", header.length()),
+                        None,
+                    ));
+                };
+
                 // read body fields with the generated deserializer
-                let mut body = Self::deserialize_body(buf);
+                let mut reader = $crate::pdu_macro::BodyReader::new(buf, body_length)?;
+                let mut body = Self::deserialize_body(&mut reader);
+                reader.finish()?;
                 body.header = header;
                 Ok(body)
             }
-- 
2.43.0


From ed6c7554610265f3551b90402c77be87928f42ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 09/13] fix: decode the lists and the antenna pattern of a PDU

Every list field of a PDU, and the antenna pattern of a Transmitter, was
dropped on input: decoding gave an empty list whatever its count said, and
left its octets unread in front of the next message.
---
 src/distributed_emissions.rs                  |  7 +++++
 src/entity_information.rs                     |  3 ++
 src/entity_management.rs                      |  6 ++++
 src/logistics.rs                              |  3 ++
 src/minefield.rs                              |  7 +++++
 src/pdu_macro.rs                              | 30 ++++++++++++-------
 src/radio_communications.rs                   |  5 ++++
 src/simulation_management.rs                  | 14 +++++++++
 src/simulation_management_with_reliability.rs | 15 ++++++++++
 src/synthetic_environment.rs                  |  5 ++++
 src/warfare.rs                                |  3 ++
 11 files changed, 87 insertions(+), 11 deletions(-)

diff --git a/src/distributed_emissions.rs b/src/distributed_emissions.rs
index ad6170c..237aac6 100644
--- a/src/distributed_emissions.rs
+++ b/src/distributed_emissions.rs
@@ -45,6 +45,7 @@ define_pdu! {
             pub state_update_indicator: EEAttributeStateIndicator,
             pub number_of_systems: u8,
             padding: u16,
+            #[count = number_of_systems]
             pub systems: Vec<ElectromagneticEmissionSystemData>,
         }
     }
@@ -91,8 +92,11 @@ define_pdu! {
             pub number_of_shafts: u8,
             pub number_of_apas: u8,
             pub number_of_ua_emitter_systems: u8,
+            #[count = number_of_shafts]
             pub shaft_rpms: Vec<ShaftRPMs>,
+            #[count = number_of_apas]
             pub apa_data: Vec<ApaData>,
+            #[count = number_of_ua_emitter_systems]
             pub emitter_systems: Vec<AcousticEmitterSystem>,
         }
     }
@@ -116,6 +120,7 @@ define_pdu! {
             pub layer_header: LayerHeader,
             pub beam_data: BeamData,
             pub secondary_operational_data: SecondaryOperationalData,
+            #[count = secondary_operational_data.number_of_iff_fundamental_parameter_records]
             pub iff_parameters: Vec<IFFFundamentalParameterData>,
         }
     }
@@ -135,7 +140,9 @@ define_pdu! {
             pub radar_cross_section_signature_representation_index: u16,
             pub number_of_propulsion_systems: u16,
             pub number_of_vectoring_nozzle_systems: u16,
+            #[count = number_of_propulsion_systems]
             pub propulsion_system_data: Vec<PropulsionSystemData>,
+            #[count = number_of_vectoring_nozzle_systems]
             pub vectoring_nozzle_system_data: Vec<VectoringNozzleSystemData>,
         }
     }
diff --git a/src/entity_information.rs b/src/entity_information.rs
index f97adce..3032605 100644
--- a/src/entity_information.rs
+++ b/src/entity_information.rs
@@ -46,6 +46,7 @@ define_pdu! {
             pub dead_reckoning_parameters: DeadReckoningParameters,
             pub entity_marking: EntityMarking,
             pub entity_capabilities: EntityCapabilities,
+            #[count = number_of_articulation_parameters]
             pub articulation_parameter: Vec<VariableParameter>,
         }
     }
@@ -113,6 +114,7 @@ define_pdu! {
             pub entity_location: WorldCoordinate,
             pub entity_orientation: EulerAngles,
             pub entity_appearance: u32,
+            #[count = number_of_variable_parameters]
             pub variable_parameter_records: Vec<VariableParameter>,
         }
     }
@@ -135,6 +137,7 @@ define_pdu! {
             pub action_code: DISAttributeActionCode,
             padding3: u8,
             pub number_of_attribute_record_sets: u16,
+            #[count = number_of_attribute_record_sets]
             pub attribute_record_sets: Vec<AttributeRecordSet>,
         }
     }
diff --git a/src/entity_management.rs b/src/entity_management.rs
index 157600e..63e4ca7 100644
--- a/src/entity_management.rs
+++ b/src/entity_management.rs
@@ -49,12 +49,17 @@ define_pdu! {
             pub number_of_dis_entities: u16,
             pub number_of_silent_aggregate_types: u16,
             pub number_of_silent_entity_types: u16,
+            #[count = number_of_dis_aggregates]
             pub aggregate_id_list: Vec<AggregateId>,
+            #[count = number_of_dis_entities]
             pub entity_id_list: Vec<EntityId>,
             padding: Vec<u8>,
+            #[count = number_of_silent_aggregate_types]
             pub silent_aggregate_system_list: Vec<EntityType>,
+            #[count = number_of_silent_entity_types]
             pub silent_entity_system_list: Vec<EntityType>,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_list: Vec<VariableDatumRecord>,
         }
     }
@@ -74,6 +79,7 @@ define_pdu! {
             padding: u32,
             pub latitude: f64,
             pub longitude: f64,
+            #[count = number_of_grouped_entities]
             pub grouped_entity_descriptions: Vec<u64>,
         }
     }
diff --git a/src/logistics.rs b/src/logistics.rs
index 5aa9c6d..d76d720 100644
--- a/src/logistics.rs
+++ b/src/logistics.rs
@@ -32,6 +32,7 @@ define_pdu! {
             pub service_type_requested: ServiceRequestServiceTypeRequested,
             pub number_of_supply_types: u8,
             padding: u16,
+            #[count = number_of_supply_types]
             pub supplies: Vec<SupplyQuantity>,
         }
     }
@@ -50,6 +51,7 @@ define_pdu! {
             pub number_of_supply_types: u8,
             padding: u8,
             padding2: u16,
+            #[count = number_of_supply_types]
             pub supplies: Vec<SupplyQuantity>,
         }
     }
@@ -68,6 +70,7 @@ define_pdu! {
             pub number_of_supply_types: u8,
             padding: u8,
             padding2: u16,
+            #[count = number_of_supply_types]
             pub supplies: Vec<SupplyQuantity>,
         }
     }
diff --git a/src/minefield.rs b/src/minefield.rs
index af2f039..61aba31 100644
--- a/src/minefield.rs
+++ b/src/minefield.rs
@@ -38,7 +38,9 @@ define_pdu! {
             pub minefield_orientation: EulerAngles,
             pub appearance: u16,
             pub protocol_mode: MinefieldStateProtocolMode,
+            #[count = number_of_perimeter_points]
             pub perimeter_points: Vec<Point>,
+            #[count = number_of_mine_types]
             pub mine_type: Vec<EntityType>,
         }
     }
@@ -60,7 +62,9 @@ define_pdu! {
             pub number_of_sensor_types: u8,
             pub data_filter: u32,
             pub requested_mine_type: EntityType,
+            #[count = number_of_perimeter_points]
             pub requested_perimeter_points: Vec<Point>,
+            #[count = number_of_sensor_types]
             pub sensor_types: Vec<MinefieldSensorTypes>,
         }
     }
@@ -85,7 +89,9 @@ define_pdu! {
             padding: u8,
             pub data_filter: u32,
             pub mine_type: EntityType,
+            #[count = number_of_sensor_types]
             pub sensor_types: Vec<MinefieldSensorTypes>,
+            #[count = number_of_mines_in_this_pdu]
             pub mine_location: Vec<EntityCoordinateVector>,
             pub ground_burial_depth_offset: Vec<Option<f32>>,
             pub water_burial_depth_offset: Vec<Option<f32>>,
@@ -117,6 +123,7 @@ define_pdu! {
             pub requesting_entity_id: EntityId,
             pub request_id: u8,
             pub number_of_missing_pdus: u8,
+            #[count = number_of_missing_pdus]
             pub missing_pdu_sequence_numbers: Vec<u64>,
         }
     }
diff --git a/src/pdu_macro.rs b/src/pdu_macro.rs
index ad6959f..eb63b33 100644
--- a/src/pdu_macro.rs
+++ b/src/pdu_macro.rs
@@ -180,12 +180,14 @@ macro_rules! __pdu_prep_serialize_field {
 
     ( len = $len_field:ident ; $self:ident, $field:ident, $t:ty ) => {
         // For non-option fields with length attribute, set the length from the inner value.
-        $self.$len_field = u8::try_from(<$t as $crate::pdu_macro::FieldLen>::field_len(
-            &$self.$field,
-        ))
-        .unwrap_or_default();
+        $self.$len_field = <$t as $crate::pdu_macro::FieldLen>::field_len(&$self.$field)
+            .try_into()
+            .unwrap_or_default();
     };
 
+    // A count is the caller's to keep in step with its list
+    ( count = $count:expr ; $self:ident, $field:ident, $t:ty ) => {};
+
     // Default: no-op
     ( ; $self:ident, $field:ident, $t:ty ) => {
         // nothing to do
@@ -218,6 +220,11 @@ macro_rules! __pdu_deserialize_field {
         );
     };
 
+    // List with a count attribute -> read as many items
+    ( count = $count:expr ; $field:ident, $t:ty, $buf:ident ) => {
+        let $field: $t = $crate::pdu_macro::deserialize_list($buf, ($count) as usize);
+    };
+
     // Default: plain FieldDeserialize
     ( ; $field:ident, $t:ty, $buf:ident ) => {
         let $field: $t = <$t as $crate::pdu_macro::FieldDeserialize>::deserialize_field($buf);
@@ -342,7 +349,7 @@ macro_rules! define_pdu {
             protocol_family: $protocol_family:expr,
             fields: {
                 $(
-                    $(#[len = $len_field:ident])? $fvis:vis $field:ident : $ftype:ty,
+                    $(#[$attr:ident = $($arg:tt)+])? $fvis:vis $field:ident : $ftype:ty,
                 )*
             }
 
@@ -376,11 +383,12 @@ macro_rules! define_pdu {
             /// you should write custom code in the manual body impl below or adapt the macro.
             fn deserialize_body<B: bytes::Buf>(buf: &mut B) -> Self {
                 $(
-                    // Each field can optionally be annotated with `#[len = name]`.
-                    // The helper macro below will either call the plain `FieldDeserialize`
-                    // or the length-aware `FieldDeserializeWithLen` depending on the
-                    // annotation.
-                    $crate::__pdu_deserialize_field!( $( len = $len_field )? ; $field, $ftype, buf );
+                    // Each field can optionally be annotated with `#[len = name]`, or a list
+                    // with `#[count = expression]` over the fields before it.
+                    // The helper macro below will either call the plain `FieldDeserialize`,
+                    // the length-aware `FieldDeserializeWithLen` or read so many items,
+                    // depending on the annotation.
+                    $crate::__pdu_deserialize_field!( $( $attr = $($arg)+ )? ; $field, $ftype, buf );
                 )*
 
                 Self {
@@ -429,7 +437,7 @@ macro_rules! define_pdu {
                 // Allow annotated fields to update their associated "length" fields
                 // before we compute the overall PDU length. If a field is annotated
                 // `#[len = foo]` the prep macro will set `self.foo` appropriately.
-                $( $crate::__pdu_prep_serialize_field!( $( len = $len_field )? ; self, $field, $ftype ); )*
+                $( $crate::__pdu_prep_serialize_field!( $( $attr = $($arg)+ )? ; self, $field, $ftype ); )*
 
                 // compute length the correct way and set it
                 let len = self.calculate_length()?;
diff --git a/src/radio_communications.rs b/src/radio_communications.rs
index dcc8251..35b9d40 100644
--- a/src/radio_communications.rs
+++ b/src/radio_communications.rs
@@ -58,7 +58,9 @@ define_pdu! {
             padding2: u16,
             #[len = modulation_parameter_length]
             pub modulation_parameters: Option<ModulationParameters>,
+            #[len = antenna_pattern_length]
             pub antenna_pattern: Option<AntennaPattern>,
+            #[count = number_of_variable_transmitter_parameters_records]
             pub variable_transmitter_parameters: Vec<VariableTransmitterParameters>,
         }
     }
@@ -79,6 +81,7 @@ define_pdu! {
             pub sample_rate: u32,
             pub data_length: u16,
             pub samples: u16,
+            #[count = data_length.div_ceil(8)]
             pub data: Vec<u8>,
         }
     }
@@ -118,6 +121,7 @@ define_pdu! {
             pub sample_rate: u32,
             pub data_length: u16,
             pub samples: u16,
+            #[count = data_length.div_ceil(8)]
             pub data: Vec<u8>,
         }
     }
@@ -143,6 +147,7 @@ define_pdu! {
             pub master_intercom_number: u16,
             pub master_channel_id: u16,
             pub intercom_parameters_length: u32,
+            #[count = intercom_parameters_length / 8]
             pub intercom_parameters: Vec<IntercomCommunicationsParameters>,
         }
     }
diff --git a/src/simulation_management.rs b/src/simulation_management.rs
index 8c6a4bc..26c1fef 100644
--- a/src/simulation_management.rs
+++ b/src/simulation_management.rs
@@ -118,7 +118,9 @@ define_pdu! {
             pub action_id: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -138,7 +140,9 @@ define_pdu! {
             pub request_status: ActionResponseRequestStatus,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -158,7 +162,9 @@ define_pdu! {
             pub time_interval: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -178,7 +184,9 @@ define_pdu! {
             padding: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -198,7 +206,9 @@ define_pdu! {
             padding: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -218,7 +228,9 @@ define_pdu! {
             padding: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -236,7 +248,9 @@ define_pdu! {
             pub receiving_entity_id: EntityId,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
diff --git a/src/simulation_management_with_reliability.rs b/src/simulation_management_with_reliability.rs
index 0af891b..1cdec78 100644
--- a/src/simulation_management_with_reliability.rs
+++ b/src/simulation_management_with_reliability.rs
@@ -137,7 +137,9 @@ define_pdu! {
             padding3: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -157,7 +159,9 @@ define_pdu! {
             pub request_status: ActionResponseRequestStatus,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -180,7 +184,9 @@ define_pdu! {
             pub time_interval: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_ids: Vec<VariableRecordTypes>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_ids: Vec<VariableRecordTypes>,
         }
     }
@@ -202,7 +208,9 @@ define_pdu! {
             pub request_id: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -224,7 +232,9 @@ define_pdu! {
             padding2: u16,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -244,7 +254,9 @@ define_pdu! {
             padding: u32,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -262,7 +274,9 @@ define_pdu! {
             pub receiving_entity_id: EntityId,
             pub number_of_fixed_datum_records: u32,
             pub number_of_variable_datum_records: u32,
+            #[count = number_of_fixed_datum_records]
             pub fixed_datum_records: Vec<FixedDatumRecord>,
+            #[count = number_of_variable_datum_records]
             pub variable_datum_records: Vec<VariableDatumRecord>,
         }
     }
@@ -284,6 +298,7 @@ define_pdu! {
             pub event_type: RecordQueryREventType,
             pub time: u32,
             pub number_of_records: u32,
+            #[count = number_of_records]
             pub record_ids: Vec<u32>,
         }
     }
diff --git a/src/synthetic_environment.rs b/src/synthetic_environment.rs
index f9dddd9..7911f91 100644
--- a/src/synthetic_environment.rs
+++ b/src/synthetic_environment.rs
@@ -40,6 +40,7 @@ define_pdu! {
             pub environment_status: u8,
             pub number_of_environment_records: u16,
             pub sequence_number: u16,
+            #[count = number_of_environment_records]
             pub environment_records: Vec<Environment>,
         }
     }
@@ -67,7 +68,9 @@ define_pdu! {
             pub vector_dimension: u8,
             padding: u8,
             padding2: u16,
+            #[count = number_of_grid_axes]
             pub grid_axis_descriptors: Vec<GridAxisDescriptor>,
+            #[count = vector_dimension]
             pub grid_data_list: Vec<GridDataRecord>,
         }
     }
@@ -115,6 +118,7 @@ define_pdu! {
             pub requester_id: SimulationAddress,
             pub receiving_id: SimulationAddress,
             pub object_type: ObjectType,
+            #[count = number_of_segments]
             pub linear_segment_parameters: Vec<LinearSegmentParameter>,
         }
     }
@@ -139,6 +143,7 @@ define_pdu! {
             pub number_of_points: u16,
             pub requester_id: SimulationAddress,
             pub receiving_id: SimulationAddress,
+            #[count = number_of_points]
             pub object_location: Vec<WorldCoordinate>,
         }
     }
diff --git a/src/warfare.rs b/src/warfare.rs
index ce0641e..b6393bb 100644
--- a/src/warfare.rs
+++ b/src/warfare.rs
@@ -60,6 +60,7 @@ define_pdu! {
             pub detonation_result: DetonationResult,
             pub number_of_variable_parameters: u8,
             padding: u16,
+            #[count = number_of_variable_parameters]
             pub variable_parameters: Vec<VariableParameter>,
         }
     }
@@ -90,6 +91,7 @@ define_pdu! {
             padding3: u32,
             padding4: u16,
             pub number_of_de_records: u16,
+            #[count = number_of_de_records]
             pub damage_descriptions: Vec<DirectedEnergyDamage>,
         }
     }
@@ -107,6 +109,7 @@ define_pdu! {
             padding: u16,
             padding2: u16,
             pub number_of_damage_descriptions: u16,
+            #[count = number_of_damage_descriptions]
             pub damage_descriptions: Vec<DirectedEnergyDamage>,
         }
     }
-- 
2.43.0


From d48583b5f983bf7894afc49a84f7fbba665a42bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 10/13] fix: take a header timestamp from one reading of the
 clock

The minutes, seconds and microseconds of the timestamp came from three
readings, so a timestamp taken across a second or minute boundary was up to a
minute in the past; and it was computed in single precision, which is off by
up to a hundred units and more, either way.
---
 src/common/live_entity_pdu_header.rs | 9 +++++----
 src/common/pdu_header.rs             | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/common/live_entity_pdu_header.rs b/src/common/live_entity_pdu_header.rs
index 5dad17b..ea7401f 100644
--- a/src/common/live_entity_pdu_header.rs
+++ b/src/common/live_entity_pdu_header.rs
@@ -124,10 +124,11 @@ impl LiveEntityPduHeader {
         clippy::cast_sign_loss
     )]
     pub fn calculate_dis_timestamp() -> u32 {
-        let minute_curr = u64::from((Utc::now().minute() * 60) * 1_000_000);
-        let second_curr = u64::from(Utc::now().second() * 1_000_000);
-        let nanosecond_curr = u64::from(Utc::now().nanosecond() / 1000);
-        let dis_time = (second_curr + minute_curr + nanosecond_curr) as f32 / 1.68;
+        let now = Utc::now();
+        let minute_curr = u64::from(now.minute()) * 60 * 1_000_000;
+        let second_curr = u64::from(now.second()) * 1_000_000;
+        let microsecond_curr = u64::from(now.nanosecond() / 1000);
+        let dis_time = (second_curr + minute_curr + microsecond_curr) as f64 / 1.68;
         dis_time as u32
     }
 }
diff --git a/src/common/pdu_header.rs b/src/common/pdu_header.rs
index 1df3098..759ebad 100644
--- a/src/common/pdu_header.rs
+++ b/src/common/pdu_header.rs
@@ -246,10 +246,11 @@ impl PduHeader {
         clippy::cast_sign_loss
     )]
     pub fn calculate_dis_timestamp() -> u32 {
-        let minute_curr = u64::from((Utc::now().minute() * 60) * 1_000_000);
-        let second_curr = u64::from(Utc::now().second() * 1_000_000);
-        let nanosecond_curr = u64::from(Utc::now().nanosecond() / 1000);
-        let dis_time = (second_curr + minute_curr + nanosecond_curr) as f32 / 1.68;
+        let now = Utc::now();
+        let minute_curr = u64::from(now.minute()) * 60 * 1_000_000;
+        let second_curr = u64::from(now.second()) * 1_000_000;
+        let microsecond_curr = u64::from(now.nanosecond() / 1000);
+        let dis_time = (second_curr + minute_curr + microsecond_curr) as f64 / 1.68;
         dis_time as u32
     }
 
-- 
2.43.0


From f7470a32bdea5d001aebf0ecc7e482d113d01022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 11/13] fix: read no more than its padding after an irregular
 grid axis

Decoding took all the octets up to the end of the input for the padding of
the axis, so the following axes and all grid data of the PDU were lost.
---
 src/common/data_types/grid_axis_descriptor.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/common/data_types/grid_axis_descriptor.rs b/src/common/data_types/grid_axis_descriptor.rs
index a87098d..55ad718 100644
--- a/src/common/data_types/grid_axis_descriptor.rs
+++ b/src/common/data_types/grid_axis_descriptor.rs
@@ -135,10 +135,8 @@ impl GridAxisDescriptor {
                 let coordinate_scale_x = buf.get_f64();
                 let coordinate_offset_x = buf.get_f64();
                 let x_values: Vec<u16> = deserialize_list(buf, number_of_points_on_x_axis.into());
-                let mut padding: Vec<u8> = vec![];
-                while buf.has_remaining() {
-                    padding.push(buf.get_u8());
-                }
+                // Padding to a 64-bit boundary
+                let padding: Vec<u8> = deserialize_list(buf, (8 - x_values.field_len() % 8) % 8);
 
                 GridAxisType::VariableSpacing {
                     number_of_points_on_x_axis,
-- 
2.43.0


From 0f1a260b196e0fc57b6ba56543abd5db16d88abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 12/13] fix: read and size the 16-bit type codes of grid data
 as written

---
 src/common/data_types/grid_data_record.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/data_types/grid_data_record.rs b/src/common/data_types/grid_data_record.rs
index 81fa580..1a55cac 100644
--- a/src/common/data_types/grid_data_record.rs
+++ b/src/common/data_types/grid_data_record.rs
@@ -4,6 +4,7 @@
 //     Licensed under the BSD-2-Clause License
 
 use bytes::{Buf, BufMut, BytesMut};
+use num_traits::FromPrimitive;
 
 use crate::{
     common::enums::{GriddedDataDataRepresentation, GriddedDataSampleType},
@@ -131,8 +132,9 @@ impl GridDataRecord {
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-        let sample_type = GriddedDataSampleType::deserialize(buf);
-        let data_representation = GriddedDataDataRepresentation::deserialize(buf);
+        let sample_type = GriddedDataSampleType::from_u16(buf.get_u16()).unwrap_or_default();
+        let data_representation =
+            GriddedDataDataRepresentation::from_u16(buf.get_u16()).unwrap_or_default();
         let data = match data_representation {
             GriddedDataDataRepresentation::Type0 => {
                 let number_of_octets = buf.get_u16();
@@ -201,6 +203,7 @@ impl FieldDeserialize for GridDataRecord {
 
 impl FieldLen for GridDataRecord {
     fn field_len(&self) -> usize {
-        self.sample_type.field_len() + self.data_representation.field_len() + self.data.field_len()
+        // The sample type and the data representation take 16 bits each
+        2 + 2 + self.data.field_len()
     }
 }
-- 
2.43.0


From 11be2d27c7a4a10a33e6ecde6cfe4cb1e2dda707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 13/13] fix: read the 32-bit record type of variable
 transmitter parameters as written

---
 src/common/data_types/variable_transmitter_parameters.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/data_types/variable_transmitter_parameters.rs b/src/common/data_types/variable_transmitter_parameters.rs
index 1d7f38f..d863051 100644
--- a/src/common/data_types/variable_transmitter_parameters.rs
+++ b/src/common/data_types/variable_transmitter_parameters.rs
@@ -3,6 +3,7 @@
 //
 //     Licensed under the BSD-2-Clause License
 use bytes::{Buf, BufMut, BytesMut};
+use num_traits::FromPrimitive;
 
 use crate::common::enums::VariableParameterRecordType;
 use crate::pdu_macro::{FieldDeserialize, FieldLen, FieldSerialize, deserialize_list};
@@ -47,7 +48,8 @@ impl VariableTransmitterParameters {
     }
 
     pub fn deserialize<B: Buf>(buf: &mut B) -> Self {
-        let record_type = VariableParameterRecordType::deserialize(buf);
+        let record_type =
+            VariableParameterRecordType::from_u32(buf.get_u32()).unwrap_or_default();
         let record_length = buf.get_u16();
         let record_specific_fields: Vec<u8> = deserialize_list(buf, record_length.into());
 
-- 
2.43.0

