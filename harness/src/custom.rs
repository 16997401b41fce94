//! Records whose layout is not a plain list of fields.
use crate::core::*;
use bytes::BytesMut;
use open_dis_rust::common::data_types::antenna_pattern::AntennaPattern;
use open_dis_rust::common::data_types::datum_records::VariableDatumRecord;
use open_dis_rust::common::data_types::entity_marking::EntityMarking;
use open_dis_rust::common::data_types::grid_axis_descriptor::{GridAxisDescriptor, GridAxisType};
use open_dis_rust::common::data_types::grid_data_record::{DataRepresentationType, GridDataRecord};
use open_dis_rust::common::data_types::modulation_parameters::ModulationParameters;
use open_dis_rust::common::data_types::record_specification_element::RecordSpecificationElement;
use open_dis_rust::common::enums::{FrozenBehavior, GridAxisDescriptorAxisType, GriddedDataDataRepresentation, ObjectStateAppearanceGeneral};
use open_dis_rust::pdu_macro::FieldLen;

macro_rules! blob {
    ($t:ty, $name:expr, $l:ty, $max:expr) => {
        impl Blob for $t {
            const NAME: &'static str = $name;
            const MAX: usize = $max;
            fn make_raw(mut b: &[u8]) -> Option<Self> {
                let n = b.len() as $l;
                Self::deserialize(&mut b, n)
            }
            fn empty() -> Self {
                Self::new()
            }
            fn ser(&self, b: &mut BytesMut) {
                self.serialize(b);
            }
            fn flen(&self) -> usize {
                self.field_len()
            }
        }
        impl Wire for $t {
            fn gen(g: &mut G) -> Self {
                let n = g.len($max);
                let n = match g.rng.below(10) {
                    _ if g.was_forced() => n,
                    0 => n.min(600),
                    _ => n.clamp(1, 64),
                };
                let n = n.min($max);
                let b = g.bytes(n as usize);
                Self::make(&b)
            }
            fn enc(&self, w: &mut W) {
                w.raw(&blob_bytes(self), Span::Blob);
            }
            fn dec(_: &mut R) -> Result<Self, Short> {
                unreachable!("blobs are read with their length")
            }
            fn diff(&self, o: &Self) -> Option<String> {
                let (a, b) = (blob_bytes(self), blob_bytes(o));
                if a == b { None } else { Some(format!(": {} vs {}", hex(&a, 40), hex(&b, 40))) }
            }
            fn dup(&self) -> Self {
                self.dup_blob()
            }
        }
    };
}
blob!(ModulationParameters, "ModulationParameters", u8, 255);
blob!(AntennaPattern, "AntennaPattern", u16, 65535);

impl Wire for EntityMarking {
    fn gen(g: &mut G) -> Self {
        let set = Wire::gen(g);
        EntityMarking::new(set, g.text())
    }
    fn enc(&self, w: &mut W) {
        self.entity_marking_character_set.enc(w);
        if !self.entity_marking_string.is_ascii() {
            w.vague = true;
        }
        let mut b: Vec<u8> = self.entity_marking_string.bytes().take(11).collect();
        b.resize(11, 0);
        w.raw(&b, Span::Text);
    }
    fn dec(r: &mut R) -> Result<Self, Short> {
        let set = Wire::dec(r)?;
        let b = r.take(11)?;
        let n = b.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
        let b = &b[..n];
        if !b.is_ascii() || b.contains(&0) {
            r.vague = true;
        }
        Ok(EntityMarking::new(set, String::from_utf8_lossy(b).into_owned()))
    }
    fn diff(&self, o: &Self) -> Option<String> {
        if let Some(d) = self.entity_marking_character_set.diff(&o.entity_marking_character_set) {
            return Some(format!(".entity_marking_character_set{d}"));
        }
        if self.entity_marking_string == o.entity_marking_string { None } else { Some(format!(".entity_marking_string: {:?} vs {:?}", self.entity_marking_string, o.entity_marking_string)) }
    }
    fn dup(&self) -> Self {
        EntityMarking::new(self.entity_marking_character_set, self.entity_marking_string.clone())
    }
}

macro_rules! flags {
    ($t:ty, $b:ty, $n:expr) => {
        impl Wire for $t {
            fn gen(g: &mut G) -> Self {
                <$t>::from_bits_truncate(g.int($n * 8) as $b)
            }
            fn enc(&self, w: &mut W) {
                w.raw(&self.bits().to_be_bytes(), Span::Flags);
            }
            fn dec(r: &mut R) -> Result<Self, Short> {
                let v = r.int($n)? as $b;
                let f = <$t>::from_bits_truncate(v);
                if f.bits() != v {
                    r.vague = true;
                }
                Ok(f)
            }
            fn diff(&self, o: &Self) -> Option<String> {
                if self.bits() == o.bits() { None } else { Some(format!(": {:#x} vs {:#x}", self.bits(), o.bits())) }
            }
            fn dup(&self) -> Self {
                *self
            }
        }
    };
}
flags!(FrozenBehavior, u8, 1);
flags!(ObjectStateAppearanceGeneral, u16, 2);

fn datum_pad(bits: u32) -> usize {
    (((64 - bits % 64) % 64) / 8) as usize
}
impl Wire for VariableDatumRecord {
    fn gen(g: &mut G) -> Self {
        let datum_id = Wire::gen(g);
        let mut length_bits: u32 = Wire::gen(g);
        let value: Vec<u8> = g.list(1 << 20);
        if g.consistent {
            let n = value.len() as u32;
            length_bits = if n == 0 {
                0
            } else if g.rng.chance(50) {
                n * 8
            } else {
                (n - 1) * 8 + 1 + length_bits % 8
            };
        }
        VariableDatumRecord { datum_id, length_bits, value }
    }
    fn enc(&self, w: &mut W) {
        self.datum_id.enc(w);
        w.mark_count();
        self.length_bits.enc(w);
        w.raw(&self.value, Span::Blob);
        w.pad(datum_pad(self.length_bits));
    }
    fn dec(r: &mut R) -> Result<Self, Short> {
        let datum_id = Wire::dec(r)?;
        let length_bits: u32 = Wire::dec(r)?;
        let value = r.take((length_bits as usize).div_ceil(8))?.to_vec();
        r.skip(datum_pad(length_bits))?;
        Ok(VariableDatumRecord { datum_id, length_bits, value })
    }
    fn diff(&self, o: &Self) -> Option<String> {
        if let Some(d) = self.datum_id.diff(&o.datum_id) {
            return Some(format!(".datum_id{d}"));
        }
        if let Some(d) = self.length_bits.diff(&o.length_bits) {
            return Some(format!(".length_bits{d}"));
        }
        self.value.diff(&o.value).map(|d| format!(".value{d}"))
    }
    fn dup(&self) -> Self {
        VariableDatumRecord { datum_id: self.datum_id, length_bits: self.length_bits, value: self.value.clone() }
    }
}

impl Wire for RecordSpecificationElement {
    fn gen(g: &mut G) -> Self {
        let (id, serial) = (Wire::gen(g), Wire::gen(g));
        let (mut len, mut count): (u16, u16) = (Wire::gen(g), Wire::gen(g));
        let mut values: Vec<u8> = vec![];
        if g.consistent {
            let n = g.len(65535);
            let forced = g.was_forced();
            let m = if g.rng.chance(30) { g.rng.below(4) } else { 1 + g.rng.below(12) };
            if g.rng.chance(85) {
                // (m) records of (n) octets, or the other way round
                let (a, b) = if g.rng.chance(50) { (n, m) } else { (m, n) };
                let (top, most) = if forced { (65535, 66000) } else { (400, 4000) };
                len = a.min(top) as u16;
                count = b.min(top) as u16;
                if usize::from(len) * usize::from(count) > most {
                    count = 1;
                }
            } else if g.rng.chance(50) {
                len = 0;
            } else {
                count = 0;
            }
            values = g.bytes(usize::from(len) * usize::from(count));
        } else {
            let n = g.len(1 << 20);
            for _ in 0..n {
                values.push(Wire::gen(g));
            }
        }
        RecordSpecificationElement::new(id, serial, len, count, values)
    }
    fn enc(&self, w: &mut W) {
        self.record_id.enc(w);
        self.record_set_serial_number.enc(w);
        w.mark_count();
        self.record_length.enc(w);
        w.mark_count();
        self.record_count.enc(w);
        w.raw(&self.record_values, Span::Blob);
    }
    fn dec(r: &mut R) -> Result<Self, Short> {
        let (id, serial) = (Wire::dec(r)?, Wire::dec(r)?);
        let (len, count): (u16, u16) = (Wire::dec(r)?, Wire::dec(r)?);
        let v = r.take(usize::from(len) * usize::from(count))?.to_vec();
        Ok(RecordSpecificationElement::new(id, serial, len, count, v))
    }
    fn diff(&self, o: &Self) -> Option<String> {
        if let Some(d) = self.record_id.diff(&o.record_id) {
            return Some(format!(".record_id{d}"));
        }
        if let Some(d) = self.record_set_serial_number.diff(&o.record_set_serial_number) {
            return Some(format!(".record_set_serial_number{d}"));
        }
        if let Some(d) = self.record_length.diff(&o.record_length) {
            return Some(format!(".record_length{d}"));
        }
        if let Some(d) = self.record_count.diff(&o.record_count) {
            return Some(format!(".record_count{d}"));
        }
        self.record_values.diff(&o.record_values).map(|d| format!(".record_values{d}"))
    }
    fn dup(&self) -> Self {
        RecordSpecificationElement::new(self.record_id, self.record_set_serial_number, self.record_length, self.record_count, self.record_values.clone())
    }
}

fn axis_pad(n: usize) -> usize {
    (8 - (2 * n) % 8) % 8
}
impl Wire for GridAxisDescriptor {
    fn gen(g: &mut G) -> Self {
        let (a, b) = (Wire::gen(g), Wire::gen(g));
        let (points, inter) = (Wire::gen(g), Wire::gen(g));
        let ty: GridAxisDescriptorAxisType = Wire::gen(g);
        let (mut n, i): (u16, u16) = (Wire::gen(g), Wire::gen(g));
        let irregular = if g.consistent { ty == GridAxisDescriptorAxisType::IrregularAxis } else { g.rng.chance(50) };
        let data = if irregular {
            let (s, o) = (Wire::gen(g), Wire::gen(g));
            let xs: Vec<u16> = g.list(65535);
            let pad = if g.consistent {
                n = xs.len() as u16;
                vec![0; axis_pad(xs.len())]
            } else {
                g.list(65535)
            };
            GridAxisType::VariableSpacing { number_of_points_on_x_axis: n, initial_index: i, coordinate_scale_x: s, coordinate_offset_x: o, x_values: xs, padding: pad }
        } else {
            GridAxisType::FixedSpacing { number_of_points_on_x_axis: n, initial_index: i }
        };
        GridAxisDescriptor::new(a, b, points, inter, ty, data)
    }
    fn enc(&self, w: &mut W) {
        self.domain_initial.enc(w);
        self.domain_final.enc(w);
        self.domain_points.enc(w);
        self.interleaf_factor.enc(w);
        w.mark_count();
        self.axis_type.enc(w);
        match &self.data {
            GridAxisType::FixedSpacing { number_of_points_on_x_axis, initial_index } => {
                number_of_points_on_x_axis.enc(w);
                initial_index.enc(w);
            }
            GridAxisType::VariableSpacing { number_of_points_on_x_axis, initial_index, coordinate_scale_x, coordinate_offset_x, x_values, padding } => {
                w.mark_count();
                number_of_points_on_x_axis.enc(w);
                initial_index.enc(w);
                coordinate_scale_x.enc(w);
                coordinate_offset_x.enc(w);
                x_values.enc(w);
                padding.enc(w);
            }
        }
    }
    fn dec(r: &mut R) -> Result<Self, Short> {
        let (a, b) = (Wire::dec(r)?, Wire::dec(r)?);
        let (points, inter) = (Wire::dec(r)?, Wire::dec(r)?);
        let ty: GridAxisDescriptorAxisType = Wire::dec(r)?;
        let (n, i): (u16, u16) = (Wire::dec(r)?, Wire::dec(r)?);
        let data = if ty == GridAxisDescriptorAxisType::IrregularAxis {
            let (s, o) = (Wire::dec(r)?, Wire::dec(r)?);
            let left = r.lists_left;
            let xs: Vec<u16> = r.list(n.into())?;
            let pad = r.list(axis_pad(xs.len()) as u64)?;
            r.lists_left = left;
            GridAxisType::VariableSpacing { number_of_points_on_x_axis: n, initial_index: i, coordinate_scale_x: s, coordinate_offset_x: o, x_values: xs, padding: pad }
        } else {
            GridAxisType::FixedSpacing { number_of_points_on_x_axis: n, initial_index: i }
        };
        Ok(GridAxisDescriptor::new(a, b, points, inter, ty, data))
    }
    fn diff(&self, o: &Self) -> Option<String> {
        if let Some(d) = self.domain_initial.diff(&o.domain_initial) {
            return Some(format!(".domain_initial{d}"));
        }
        if let Some(d) = self.domain_final.diff(&o.domain_final) {
            return Some(format!(".domain_final{d}"));
        }
        if let Some(d) = self.domain_points.diff(&o.domain_points) {
            return Some(format!(".domain_points{d}"));
        }
        if let Some(d) = self.interleaf_factor.diff(&o.interleaf_factor) {
            return Some(format!(".interleaf_factor{d}"));
        }
        if let Some(d) = self.axis_type.diff(&o.axis_type) {
            return Some(format!(".axis_type{d}"));
        }
        by_bytes(".data", axis_lists(&self.data), axis_lists(&o.data), self, o)
    }
    fn dup(&self) -> Self {
        GridAxisDescriptor::new(self.domain_initial, self.domain_final, self.domain_points, self.interleaf_factor, self.axis_type, self.data.clone())
    }
}
/// Which alternative, and the lengths of its lists.
type Lists = (u8, usize, usize);
fn axis_lists(d: &GridAxisType) -> Lists {
    match d {
        GridAxisType::FixedSpacing { .. } => (0, 0, 0),
        GridAxisType::VariableSpacing { x_values, padding, .. } => (1, x_values.len(), padding.len()),
    }
}
fn data_lists(d: &DataRepresentationType) -> Lists {
    match d {
        DataRepresentationType::Type0 { data_values, padding, .. } => (0, data_values.len(), padding.len()),
        DataRepresentationType::Type1 { data_values, padding, .. } => (1, data_values.len(), padding.len()),
        DataRepresentationType::Type2 { data_values, .. } => (2, data_values.len(), 0),
    }
}
/// Equal when they are the same alternative, their lists are as long, and they have the same octets
/// (floats by bits).
fn by_bytes<T: Wire>(at: &str, a: Lists, b: Lists, x: &T, y: &T) -> Option<String> {
    let (mut u, mut v) = (W::new(), W::new());
    x.enc(&mut u);
    y.enc(&mut v);
    if a == b && u.b == v.b {
        None
    } else {
        Some(format!("{at}: {} vs {} (kind, values, padding: {a:?} vs {b:?})", hex(&u.b, 100), hex(&v.b, 100)))
    }
}

impl Wire for GridDataRecord {
    fn gen(g: &mut G) -> Self {
        let sample = Wire::gen(g);
        let rep: GriddedDataDataRepresentation = Wire::gen(g);
        let mut n: u16 = Wire::gen(g);
        let which = match rep {
            _ if !g.consistent => g.rng.below(3),
            GriddedDataDataRepresentation::Type0 => 0,
            GriddedDataDataRepresentation::Type1 => 1,
            GriddedDataDataRepresentation::Type2 => 2,
        };
        // The padding of types 0 and 1 is what is left of the message, see known-findings.
        let data = match which {
            0 => {
                let v: Vec<u8> = g.list(65535);
                if g.consistent {
                    n = v.len() as u16;
                }
                let pad = if g.consistent { vec![0; (4 - (6 + v.len()) % 4) % 4] } else { g.list(65535) };
                DataRepresentationType::Type0 { number_of_octets: n, data_values: v, padding: pad }
            }
            1 => {
                let (s, o) = (Wire::gen(g), Wire::gen(g));
                let v: Vec<u16> = g.list(65535);
                if g.consistent {
                    n = v.len() as u16;
                }
                let pad = if g.consistent { vec![0; (4 - (14 + 2 * v.len()) % 4) % 4] } else { g.list(65535) };
                DataRepresentationType::Type1 { field_scale: s, field_offset: o, number_of_values: n, data_values: v, padding: pad }
            }
            _ => {
                let padding: u16 = if g.consistent { 0 } else { Wire::gen(g) };
                let v: Vec<f32> = g.list(65535);
                if g.consistent {
                    n = v.len() as u16;
                }
                DataRepresentationType::Type2 { number_of_values: n, padding, data_values: v }
            }
        };
        GridDataRecord::new(sample, rep, data)
    }
    fn enc(&self, w: &mut W) {
        // both codes take 16 bits here
        enc_wide(&self.sample_type, w, 2);
        w.mark_count();
        enc_wide(&self.data_representation, w, 2);
        match &self.data {
            DataRepresentationType::Type0 { number_of_octets, data_values, padding } => {
                w.mark_count();
                number_of_octets.enc(w);
                data_values.enc(w);
                padding.enc(w);
            }
            DataRepresentationType::Type1 { field_scale, field_offset, number_of_values, data_values, padding } => {
                field_scale.enc(w);
                field_offset.enc(w);
                w.mark_count();
                number_of_values.enc(w);
                data_values.enc(w);
                padding.enc(w);
            }
            DataRepresentationType::Type2 { number_of_values, padding, data_values } => {
                w.mark_count();
                number_of_values.enc(w);
                padding.enc(w);
                data_values.enc(w);
            }
        }
    }
    fn dec(r: &mut R) -> Result<Self, Short> {
        let last = r.lists_left == 0;
        let sample = dec_wide(r, 2)?;
        let rep: GriddedDataDataRepresentation = dec_wide(r, 2)?;
        let data = match rep {
            GriddedDataDataRepresentation::Type0 => {
                let n: u16 = Wire::dec(r)?;
                let v = r.list(n.into())?;
                if !last {
                    r.open = true;
                }
                let left = r.left() as u64;
                let pad = r.list(left)?;
                DataRepresentationType::Type0 { number_of_octets: n, data_values: v, padding: pad }
            }
            GriddedDataDataRepresentation::Type1 => {
                let (s, o) = (Wire::dec(r)?, Wire::dec(r)?);
                let n: u16 = Wire::dec(r)?;
                let v = r.list(n.into())?;
                if !last {
                    r.open = true;
                }
                let left = r.left() as u64;
                let pad = r.list(left)?;
                DataRepresentationType::Type1 { field_scale: s, field_offset: o, number_of_values: n, data_values: v, padding: pad }
            }
            GriddedDataDataRepresentation::Type2 => {
                let n: u16 = Wire::dec(r)?;
                let padding = Wire::dec(r)?;
                DataRepresentationType::Type2 { number_of_values: n, padding, data_values: r.list(n.into())? }
            }
        };
        Ok(GridDataRecord::new(sample, rep, data))
    }
    fn diff(&self, o: &Self) -> Option<String> {
        if let Some(d) = self.sample_type.diff(&o.sample_type) {
            return Some(format!(".sample_type{d}"));
        }
        if let Some(d) = self.data_representation.diff(&o.data_representation) {
            return Some(format!(".data_representation{d}"));
        }
        by_bytes(".data", data_lists(&self.data), data_lists(&o.data), self, o)
    }
    fn dup(&self) -> Self {
        GridDataRecord::new(self.sample_type, self.data_representation, self.data.clone())
    }
}
/// Grid data of representation 0 or 1 takes all octets behind it for padding (known finding).
pub fn grid_tail_is_known(rec: &[u8]) -> bool {
    rec.len() >= 4 && (rec[2], rec[3]) != (0, 2)
}
