// Generated by tools/gen.py from spec/wire.txt. Do not edit.
//! PDUs an application defines with the exported macro.
#![allow(clippy::all, unused_imports, unused_variables, unused_mut)]
use crate::core::*;
use crate::custom::*;
use open_dis_rust::common::{enums::*, GenericHeader, Pdu, PduHeader, SerializedLength};
use open_dis_rust::define_pdu;
use open_dis_rust::common::data_types::aggregate_marking::AggregateMarking;
use open_dis_rust::common::data_types::attribute_record::AttributeRecord;
use open_dis_rust::common::data_types::attribute_record_set::AttributeRecordSet;
use open_dis_rust::common::data_types::beam_data::BeamData;
use open_dis_rust::common::data_types::clock_time::ClockTime;
use open_dis_rust::common::data_types::datum_records::FixedDatumRecord;
use open_dis_rust::common::data_types::dead_reckoning_parameters::DeadReckoningParameters;
use open_dis_rust::common::data_types::electromagnetic_emission_beam_data::ElectromagneticEmissionBeamData;
use open_dis_rust::common::data_types::electromagnetic_emission_system_data::ElectromagneticEmissionSystemData;
use open_dis_rust::common::data_types::entity_type::EntityType;
use open_dis_rust::common::data_types::fundamental_parameter_data::FundamentalParameterData;
use open_dis_rust::common::data_types::linear_segment_parameter::LinearSegmentParameter;
use open_dis_rust::common::data_types::minefield_identifier::MinefieldIdentifier;
use open_dis_rust::common::data_types::munition_descriptor::MunitionDescriptor;
use open_dis_rust::common::data_types::object_type::ObjectType;
use open_dis_rust::common::data_types::record_specification::RecordSpecification;
use open_dis_rust::common::data_types::shaft_rpms::ShaftRPMs;
use open_dis_rust::common::data_types::simulation_address::SimulationAddress;
use open_dis_rust::common::data_types::standard_variable_records::StandardVariableRecords;
use open_dis_rust::common::data_types::standard_variable_specification::StandardVariableSpecification;
use open_dis_rust::common::data_types::system_id::SystemId;
use open_dis_rust::common::data_types::track_jam_target::TrackJamTarget;
use open_dis_rust::common::data_types::variable_parameter::VariableParameter;
use open_dis_rust::common::data_types::world_coordinate::WorldCoordinate;
use open_dis_rust::common::data_types::antenna_pattern::AntennaPattern;
use open_dis_rust::common::data_types::datum_records::VariableDatumRecord;
use open_dis_rust::common::data_types::entity_marking::EntityMarking;
use open_dis_rust::common::data_types::modulation_parameters::ModulationParameters;
use open_dis_rust::common::data_types::record_specification_element::RecordSpecificationElement;
define_pdu! {
    #[derive(Debug)]
    pub struct UserNumbersPdu {
        header: PduHeader,
        pdu_type: PduType::TimeSpacePositionInformation,
        protocol_family: ProtocolFamily::LiveEntityInformationInteraction,
        fields: {
            pub a: u8,
            pub b: i8,
            pub c: u16,
            pub d: i16,
            pub e: u32,
            pub f: i32,
            pub g: u64,
            pub h: i64,
            pub i: f32,
            pub j: f64,
            pub k: i64,
            pub l: u8,
        }
    }
}
define_pdu! {
    #[derive(Debug)]
    pub struct UserEmptyPdu {
        header: PduHeader,
        pdu_type: PduType::Receiver,
        protocol_family: ProtocolFamily::NonRealTime,
        fields: {
        }
    }
}
define_pdu! {
    #[derive(Debug)]
    pub struct UserRecordsPdu {
        header: PduHeader,
        pdu_type: PduType::Appearance,
        protocol_family: ProtocolFamily::NonRealTime,
        fields: {
            pub jam: TrackJamTarget,
            pub clock: ClockTime,
            pub rpm: ShaftRPMs,
            pub address: SimulationAddress,
            pub marking: EntityMarking,
            pub text: AggregateMarking,
            pub segment: LinearSegmentParameter,
            pub behavior: FrozenBehavior,
            pub look: ObjectStateAppearanceGeneral,
            pub dead: DeadReckoningParameters,
            pub system: SystemId,
            pub world: WorldCoordinate,
            pub fundamental: FundamentalParameterData,
            pub beam: BeamData,
            pub parameter: VariableParameter,
            pub burst: MunitionDescriptor,
            pub last: u8,
        }
    }
}
define_pdu! {
    #[derive(Debug)]
    pub struct UserListsPdu {
        header: PduHeader,
        pdu_type: PduType::ArticulatedParts,
        protocol_family: ProtocolFamily::Other,
        fields: {
            pub n_octets: u8,
            pub n_signed: u16,
            pub n_long: u32,
            #[count = n_octets]
            pub octets: Vec<u8>,
            #[count = n_signed]
            pub signed: Vec<i16>,
            #[count = n_long]
            pub doubles: Vec<f64>,
            pub n_wide: u16,
            #[count = n_wide]
            pub wide: Vec<u64>,
            pub n_floats: u8,
            #[count = n_floats]
            pub floats: Vec<f32>,
            pub tail: u16,
        }
    }
}
define_pdu! {
    #[derive(Debug)]
    pub struct UserRecordListsPdu {
        header: PduHeader,
        pdu_type: PduType::LiveEntityFire,
        protocol_family: ProtocolFamily::LiveEntityInformationInteraction,
        fields: {
            pub n_targets: u8,
            pub n_records: u16,
            pub n_sets: u32,
            pub n_datums: u8,
            pub n_fixed: u16,
            pub n_points: u32,
            #[count = n_targets]
            pub targets: Vec<TrackJamTarget>,
            pub between: u8,
            #[count = n_records]
            pub records: Vec<StandardVariableRecords>,
            #[count = n_datums]
            pub datums: Vec<VariableDatumRecord>,
            #[count = n_fixed]
            pub fixed: Vec<FixedDatumRecord>,
            #[count = n_sets]
            pub sets: Vec<AttributeRecordSet>,
            #[count = n_points]
            pub points: Vec<WorldCoordinate>,
            pub last: i32,
        }
    }
}
define_pdu! {
    #[derive(Debug)]
    pub struct UserElementsPdu {
        header: PduHeader,
        pdu_type: PduType::LiveEntityDetonation,
        protocol_family: ProtocolFamily::LiveEntityInformationInteraction,
        fields: {
            pub n_elements: u16,
            #[count = n_elements]
            pub elements: Vec<RecordSpecificationElement>,
            pub n_attributes: u8,
            #[count = n_attributes]
            pub attributes: Vec<AttributeRecord>,
            pub n_beams: u8,
            #[count = n_beams]
            pub beams: Vec<ElectromagneticEmissionBeamData>,
        }
    }
}
define_pdu! {
    #[derive(Debug)]
    pub struct UserBitsPdu {
        header: PduHeader,
        pdu_type: PduType::RecordReliable,
        protocol_family: ProtocolFamily::RadioCommunications,
        fields: {
            pub radio_id: u16,
            pub bits: u16,
            pub long_bits: u32,
            #[count = usize::from(bits).div_ceil(8)]
            pub data: Vec<u8>,
            #[count = usize::try_from(long_bits).unwrap_or(usize::MAX).div_ceil(8)]
            pub more: Vec<u8>,
            pub end: u32,
        }
    }
}
define_pdu! {
    #[derive(Debug)]
    pub struct UserEnumsPdu {
        header: PduHeader,
        pdu_type: PduType::Fire,
        protocol_family: ProtocolFamily::Warfare,
        fields: {
            pub force: ForceId,
            pub algorithm: DeadReckoningAlgorithm,
            pub record_type: VariableRecordTypes,
            pub reason: Reason,
            pub event: EventType,
            pub tdl: SignalTDLType,
            pub n_forces: u8,
            #[count = n_forces]
            pub forces: Vec<ForceId>,
            pub n_types: u16,
            #[count = n_types]
            pub types: Vec<VariableRecordTypes>,
        }
    }
}
define_pdu! {
    #[derive(Debug)]
    pub struct UserTwoBlobsPdu {
        header: PduHeader,
        pdu_type: PduType::Collision,
        protocol_family: ProtocolFamily::EntityInformation,
        fields: {
            pub first: u32,
            pub pattern_length: u16,
            pub modulation_length: u8,
            #[len = pattern_length]
            pub pattern: Option<AntennaPattern>,
            pub middle: u16,
            #[len = modulation_length]
            pub modulation: Option<ModulationParameters>,
            pub n: u8,
            #[count = n]
            pub rest: Vec<EntityType>,
        }
    }
}
define_pdu! {
    #[derive(Debug)]
    pub struct UserNestedPdu {
        header: PduHeader,
        pdu_type: PduType::Attribute,
        protocol_family: ProtocolFamily::LiveEntityInformationInteraction,
        fields: {
            pub specification: RecordSpecification,
            pub between: u16,
            pub variables: StandardVariableSpecification,
            pub n_systems: u8,
            #[count = n_systems]
            pub systems: Vec<ElectromagneticEmissionSystemData>,
            pub n_axes: u8,
            #[count = n_axes]
            pub kinds: Vec<ObjectType>,
            pub n_layers: u16,
            #[count = n_layers]
            pub ends: Vec<MinefieldIdentifier>,
        }
    }
}
impl PduSpec for UserNumbersPdu { const NAME: &'static str = "UserNumbersPdu"; const TYPE: (PduType, u8) = (PduType::TimeSpacePositionInformation, 46); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::LiveEntityInformationInteraction, 11);
  const FIELDS: &'static [&'static str] = &["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(51);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.a = Wire::gen(g); }
    1 => { self.b = Wire::gen(g); }
    2 => { self.c = Wire::gen(g); }
    3 => { self.d = Wire::gen(g); }
    4 => { self.e = Wire::gen(g); }
    5 => { self.f = Wire::gen(g); }
    6 => { self.g = Wire::gen(g); }
    7 => { self.h = Wire::gen(g); }
    8 => { self.i = Wire::gen(g); }
    9 => { self.j = Wire::gen(g); }
    10 => { self.k = Wire::gen(g); }
    11 => { self.l = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.a, w);
    Wire::enc(&self.b, w);
    Wire::enc(&self.c, w);
    Wire::enc(&self.d, w);
    Wire::enc(&self.e, w);
    Wire::enc(&self.f, w);
    Wire::enc(&self.g, w);
    Wire::enc(&self.h, w);
    Wire::enc(&self.i, w);
    Wire::enc(&self.j, w);
    Wire::enc(&self.k, w);
    Wire::enc(&self.l, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.a = Wire::dec(r)?;
    self.b = Wire::dec(r)?;
    self.c = Wire::dec(r)?;
    self.d = Wire::dec(r)?;
    self.e = Wire::dec(r)?;
    self.f = Wire::dec(r)?;
    self.g = Wire::dec(r)?;
    self.h = Wire::dec(r)?;
    self.i = Wire::dec(r)?;
    self.j = Wire::dec(r)?;
    self.k = Wire::dec(r)?;
    self.l = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.a, &o.a) { return Some(format!(".a{d}")); }
    if let Some(d) = Wire::diff(&self.b, &o.b) { return Some(format!(".b{d}")); }
    if let Some(d) = Wire::diff(&self.c, &o.c) { return Some(format!(".c{d}")); }
    if let Some(d) = Wire::diff(&self.d, &o.d) { return Some(format!(".d{d}")); }
    if let Some(d) = Wire::diff(&self.e, &o.e) { return Some(format!(".e{d}")); }
    if let Some(d) = Wire::diff(&self.f, &o.f) { return Some(format!(".f{d}")); }
    if let Some(d) = Wire::diff(&self.g, &o.g) { return Some(format!(".g{d}")); }
    if let Some(d) = Wire::diff(&self.h, &o.h) { return Some(format!(".h{d}")); }
    if let Some(d) = Wire::diff(&self.i, &o.i) { return Some(format!(".i{d}")); }
    if let Some(d) = Wire::diff(&self.j, &o.j) { return Some(format!(".j{d}")); }
    if let Some(d) = Wire::diff(&self.k, &o.k) { return Some(format!(".k{d}")); }
    if let Some(d) = Wire::diff(&self.l, &o.l) { return Some(format!(".l{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.a = Wire::dup(&self.a);
    o.b = Wire::dup(&self.b);
    o.c = Wire::dup(&self.c);
    o.d = Wire::dup(&self.d);
    o.e = Wire::dup(&self.e);
    o.f = Wire::dup(&self.f);
    o.g = Wire::dup(&self.g);
    o.h = Wire::dup(&self.h);
    o.i = Wire::dup(&self.i);
    o.j = Wire::dup(&self.j);
    o.k = Wire::dup(&self.k);
    o.l = Wire::dup(&self.l);
  }
}
impl PduSpec for UserEmptyPdu { const NAME: &'static str = "UserEmptyPdu"; const TYPE: (PduType, u8) = (PduType::Receiver, 27); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::NonRealTime, 12);
  const FIELDS: &'static [&'static str] = &[];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(0);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    None
  }
  fn dup_body(&self, o: &mut Self) {
  }
}
impl PduSpec for UserRecordsPdu { const NAME: &'static str = "UserRecordsPdu"; const TYPE: (PduType, u8) = (PduType::Appearance, 47); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::NonRealTime, 12);
  const FIELDS: &'static [&'static str] = &["jam", "clock", "rpm", "address", "marking", "text", "segment", "behavior", "look", "dead", "system", "world", "fundamental", "beam", "parameter", "burst", "last"];
  const LISTS: &'static [usize] = &[];
  const FIXED: Option<usize> = Some(304);
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.jam = Wire::gen(g); }
    1 => { self.clock = Wire::gen(g); }
    2 => { self.rpm = Wire::gen(g); }
    3 => { self.address = Wire::gen(g); }
    4 => { self.marking = Wire::gen(g); }
    5 => { self.text = Wire::gen(g); }
    6 => { self.segment = Wire::gen(g); }
    7 => { self.behavior = Wire::gen(g); }
    8 => { self.look = Wire::gen(g); }
    9 => { self.dead = Wire::gen(g); }
    10 => { self.system = Wire::gen(g); }
    11 => { self.world = Wire::gen(g); }
    12 => { self.fundamental = Wire::gen(g); }
    13 => { self.beam = Wire::gen(g); }
    14 => { self.parameter = Wire::gen(g); }
    15 => { self.burst = Wire::gen(g); }
    16 => { self.last = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
  }
  fn trim_lists(&mut self, keep: usize) {
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.jam, w);
    Wire::enc(&self.clock, w);
    Wire::enc(&self.rpm, w);
    Wire::enc(&self.address, w);
    Wire::enc(&self.marking, w);
    Wire::enc(&self.text, w);
    Wire::enc(&self.segment, w);
    Wire::enc(&self.behavior, w);
    Wire::enc(&self.look, w);
    Wire::enc(&self.dead, w);
    Wire::enc(&self.system, w);
    Wire::enc(&self.world, w);
    Wire::enc(&self.fundamental, w);
    Wire::enc(&self.beam, w);
    Wire::enc(&self.parameter, w);
    Wire::enc(&self.burst, w);
    Wire::enc(&self.last, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.jam = Wire::dec(r)?;
    self.clock = Wire::dec(r)?;
    self.rpm = Wire::dec(r)?;
    self.address = Wire::dec(r)?;
    self.marking = Wire::dec(r)?;
    self.text = Wire::dec(r)?;
    self.segment = Wire::dec(r)?;
    self.behavior = Wire::dec(r)?;
    self.look = Wire::dec(r)?;
    self.dead = Wire::dec(r)?;
    self.system = Wire::dec(r)?;
    self.world = Wire::dec(r)?;
    self.fundamental = Wire::dec(r)?;
    self.beam = Wire::dec(r)?;
    self.parameter = Wire::dec(r)?;
    self.burst = Wire::dec(r)?;
    self.last = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.jam, &o.jam) { return Some(format!(".jam{d}")); }
    if let Some(d) = Wire::diff(&self.clock, &o.clock) { return Some(format!(".clock{d}")); }
    if let Some(d) = Wire::diff(&self.rpm, &o.rpm) { return Some(format!(".rpm{d}")); }
    if let Some(d) = Wire::diff(&self.address, &o.address) { return Some(format!(".address{d}")); }
    if let Some(d) = Wire::diff(&self.marking, &o.marking) { return Some(format!(".marking{d}")); }
    if let Some(d) = Wire::diff(&self.text, &o.text) { return Some(format!(".text{d}")); }
    if let Some(d) = Wire::diff(&self.segment, &o.segment) { return Some(format!(".segment{d}")); }
    if let Some(d) = Wire::diff(&self.behavior, &o.behavior) { return Some(format!(".behavior{d}")); }
    if let Some(d) = Wire::diff(&self.look, &o.look) { return Some(format!(".look{d}")); }
    if let Some(d) = Wire::diff(&self.dead, &o.dead) { return Some(format!(".dead{d}")); }
    if let Some(d) = Wire::diff(&self.system, &o.system) { return Some(format!(".system{d}")); }
    if let Some(d) = Wire::diff(&self.world, &o.world) { return Some(format!(".world{d}")); }
    if let Some(d) = Wire::diff(&self.fundamental, &o.fundamental) { return Some(format!(".fundamental{d}")); }
    if let Some(d) = Wire::diff(&self.beam, &o.beam) { return Some(format!(".beam{d}")); }
    if let Some(d) = Wire::diff(&self.parameter, &o.parameter) { return Some(format!(".parameter{d}")); }
    if let Some(d) = Wire::diff(&self.burst, &o.burst) { return Some(format!(".burst{d}")); }
    if let Some(d) = Wire::diff(&self.last, &o.last) { return Some(format!(".last{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.jam = Wire::dup(&self.jam);
    o.clock = Wire::dup(&self.clock);
    o.rpm = Wire::dup(&self.rpm);
    o.address = Wire::dup(&self.address);
    o.marking = Wire::dup(&self.marking);
    o.text = Wire::dup(&self.text);
    o.segment = Wire::dup(&self.segment);
    o.behavior = Wire::dup(&self.behavior);
    o.look = Wire::dup(&self.look);
    o.dead = Wire::dup(&self.dead);
    o.system = Wire::dup(&self.system);
    o.world = Wire::dup(&self.world);
    o.fundamental = Wire::dup(&self.fundamental);
    o.beam = Wire::dup(&self.beam);
    o.parameter = Wire::dup(&self.parameter);
    o.burst = Wire::dup(&self.burst);
    o.last = Wire::dup(&self.last);
  }
}
impl PduSpec for UserListsPdu { const NAME: &'static str = "UserListsPdu"; const TYPE: (PduType, u8) = (PduType::ArticulatedParts, 48); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::Other, 0);
  const FIELDS: &'static [&'static str] = &["n_octets", "n_signed", "n_long", "octets", "signed", "doubles", "n_wide", "wide", "n_floats", "floats", "tail"];
  const LISTS: &'static [usize] = &[3, 4, 5, 7, 9];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.n_octets = Wire::gen(g); }
    1 => { self.n_signed = Wire::gen(g); }
    2 => { self.n_long = Wire::gen(g); }
    3 => { self.octets = g.list(255); }
    4 => { self.signed = g.list(65535); }
    5 => { self.doubles = g.list(4294967295); }
    6 => { self.n_wide = Wire::gen(g); }
    7 => { self.wide = g.list(65535); }
    8 => { self.n_floats = Wire::gen(g); }
    9 => { self.floats = g.list(255); }
    10 => { self.tail = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.n_octets = self.octets.len() as u8;
    self.n_signed = self.signed.len() as u16;
    self.n_long = self.doubles.len() as u32;
    self.n_wide = self.wide.len() as u16;
    self.n_floats = self.floats.len() as u8;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.octets.truncate(keep);
    self.signed.truncate(keep);
    self.doubles.truncate(keep);
    self.wide.truncate(keep);
    self.floats.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    w.mark_count();
    Wire::enc(&self.n_octets, w);
    w.mark_count();
    Wire::enc(&self.n_signed, w);
    w.mark_count();
    Wire::enc(&self.n_long, w);
    w.enter_list(); for x in &self.octets { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.signed { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.doubles { Wire::enc(x, w); } w.leave_list();
    w.mark_count();
    Wire::enc(&self.n_wide, w);
    w.enter_list(); for x in &self.wide { Wire::enc(x, w); } w.leave_list();
    w.mark_count();
    Wire::enc(&self.n_floats, w);
    w.enter_list(); for x in &self.floats { Wire::enc(x, w); } w.leave_list();
    Wire::enc(&self.tail, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.n_octets = Wire::dec(r)?;
    self.n_signed = Wire::dec(r)?;
    self.n_long = Wire::dec(r)?;
    self.octets = { let n = self.n_octets as u64; r.list(n)? };
    self.signed = { let n = self.n_signed as u64; r.list(n)? };
    self.doubles = { let n = self.n_long as u64; r.list(n)? };
    self.n_wide = Wire::dec(r)?;
    self.wide = { let n = self.n_wide as u64; r.list(n)? };
    self.n_floats = Wire::dec(r)?;
    self.floats = { let n = self.n_floats as u64; r.list(n)? };
    self.tail = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.n_octets, &o.n_octets) { return Some(format!(".n_octets{d}")); }
    if let Some(d) = Wire::diff(&self.n_signed, &o.n_signed) { return Some(format!(".n_signed{d}")); }
    if let Some(d) = Wire::diff(&self.n_long, &o.n_long) { return Some(format!(".n_long{d}")); }
    if let Some(d) = Wire::diff(&self.octets, &o.octets) { return Some(format!(".octets{d}")); }
    if let Some(d) = Wire::diff(&self.signed, &o.signed) { return Some(format!(".signed{d}")); }
    if let Some(d) = Wire::diff(&self.doubles, &o.doubles) { return Some(format!(".doubles{d}")); }
    if let Some(d) = Wire::diff(&self.n_wide, &o.n_wide) { return Some(format!(".n_wide{d}")); }
    if let Some(d) = Wire::diff(&self.wide, &o.wide) { return Some(format!(".wide{d}")); }
    if let Some(d) = Wire::diff(&self.n_floats, &o.n_floats) { return Some(format!(".n_floats{d}")); }
    if let Some(d) = Wire::diff(&self.floats, &o.floats) { return Some(format!(".floats{d}")); }
    if let Some(d) = Wire::diff(&self.tail, &o.tail) { return Some(format!(".tail{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.n_octets = Wire::dup(&self.n_octets);
    o.n_signed = Wire::dup(&self.n_signed);
    o.n_long = Wire::dup(&self.n_long);
    o.octets = Wire::dup(&self.octets);
    o.signed = Wire::dup(&self.signed);
    o.doubles = Wire::dup(&self.doubles);
    o.n_wide = Wire::dup(&self.n_wide);
    o.wide = Wire::dup(&self.wide);
    o.n_floats = Wire::dup(&self.n_floats);
    o.floats = Wire::dup(&self.floats);
    o.tail = Wire::dup(&self.tail);
  }
}
impl PduSpec for UserRecordListsPdu { const NAME: &'static str = "UserRecordListsPdu"; const TYPE: (PduType, u8) = (PduType::LiveEntityFire, 49); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::LiveEntityInformationInteraction, 11);
  const FIELDS: &'static [&'static str] = &["n_targets", "n_records", "n_sets", "n_datums", "n_fixed", "n_points", "targets", "between", "records", "datums", "fixed", "sets", "points", "last"];
  const LISTS: &'static [usize] = &[6, 8, 9, 10, 11, 12];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.n_targets = Wire::gen(g); }
    1 => { self.n_records = Wire::gen(g); }
    2 => { self.n_sets = Wire::gen(g); }
    3 => { self.n_datums = Wire::gen(g); }
    4 => { self.n_fixed = Wire::gen(g); }
    5 => { self.n_points = Wire::gen(g); }
    6 => { self.targets = g.list(255); }
    7 => { self.between = Wire::gen(g); }
    8 => { self.records = g.list(65535); }
    9 => { self.datums = g.list(255); }
    10 => { self.fixed = g.list(65535); }
    11 => { self.sets = g.list(4294967295); }
    12 => { self.points = g.list(4294967295); }
    13 => { self.last = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.n_targets = self.targets.len() as u8;
    self.n_records = self.records.len() as u16;
    self.n_datums = self.datums.len() as u8;
    self.n_fixed = self.fixed.len() as u16;
    self.n_sets = self.sets.len() as u32;
    self.n_points = self.points.len() as u32;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.targets.truncate(keep);
    self.records.truncate(keep);
    self.datums.truncate(keep);
    self.fixed.truncate(keep);
    self.sets.truncate(keep);
    self.points.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    w.mark_count();
    Wire::enc(&self.n_targets, w);
    w.mark_count();
    Wire::enc(&self.n_records, w);
    w.mark_count();
    Wire::enc(&self.n_sets, w);
    w.mark_count();
    Wire::enc(&self.n_datums, w);
    w.mark_count();
    Wire::enc(&self.n_fixed, w);
    w.mark_count();
    Wire::enc(&self.n_points, w);
    w.enter_list(); for x in &self.targets { Wire::enc(x, w); } w.leave_list();
    Wire::enc(&self.between, w);
    w.enter_list(); for x in &self.records { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.datums { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.fixed { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.sets { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.points { Wire::enc(x, w); } w.leave_list();
    Wire::enc(&self.last, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.n_targets = Wire::dec(r)?;
    self.n_records = Wire::dec(r)?;
    self.n_sets = Wire::dec(r)?;
    self.n_datums = Wire::dec(r)?;
    self.n_fixed = Wire::dec(r)?;
    self.n_points = Wire::dec(r)?;
    self.targets = { let n = self.n_targets as u64; r.list(n)? };
    self.between = Wire::dec(r)?;
    self.records = { let n = self.n_records as u64; r.list(n)? };
    self.datums = { let n = self.n_datums as u64; r.list(n)? };
    self.fixed = { let n = self.n_fixed as u64; r.list(n)? };
    self.sets = { let n = self.n_sets as u64; r.list(n)? };
    self.points = { let n = self.n_points as u64; r.list(n)? };
    self.last = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.n_targets, &o.n_targets) { return Some(format!(".n_targets{d}")); }
    if let Some(d) = Wire::diff(&self.n_records, &o.n_records) { return Some(format!(".n_records{d}")); }
    if let Some(d) = Wire::diff(&self.n_sets, &o.n_sets) { return Some(format!(".n_sets{d}")); }
    if let Some(d) = Wire::diff(&self.n_datums, &o.n_datums) { return Some(format!(".n_datums{d}")); }
    if let Some(d) = Wire::diff(&self.n_fixed, &o.n_fixed) { return Some(format!(".n_fixed{d}")); }
    if let Some(d) = Wire::diff(&self.n_points, &o.n_points) { return Some(format!(".n_points{d}")); }
    if let Some(d) = Wire::diff(&self.targets, &o.targets) { return Some(format!(".targets{d}")); }
    if let Some(d) = Wire::diff(&self.between, &o.between) { return Some(format!(".between{d}")); }
    if let Some(d) = Wire::diff(&self.records, &o.records) { return Some(format!(".records{d}")); }
    if let Some(d) = Wire::diff(&self.datums, &o.datums) { return Some(format!(".datums{d}")); }
    if let Some(d) = Wire::diff(&self.fixed, &o.fixed) { return Some(format!(".fixed{d}")); }
    if let Some(d) = Wire::diff(&self.sets, &o.sets) { return Some(format!(".sets{d}")); }
    if let Some(d) = Wire::diff(&self.points, &o.points) { return Some(format!(".points{d}")); }
    if let Some(d) = Wire::diff(&self.last, &o.last) { return Some(format!(".last{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.n_targets = Wire::dup(&self.n_targets);
    o.n_records = Wire::dup(&self.n_records);
    o.n_sets = Wire::dup(&self.n_sets);
    o.n_datums = Wire::dup(&self.n_datums);
    o.n_fixed = Wire::dup(&self.n_fixed);
    o.n_points = Wire::dup(&self.n_points);
    o.targets = Wire::dup(&self.targets);
    o.between = Wire::dup(&self.between);
    o.records = Wire::dup(&self.records);
    o.datums = Wire::dup(&self.datums);
    o.fixed = Wire::dup(&self.fixed);
    o.sets = Wire::dup(&self.sets);
    o.points = Wire::dup(&self.points);
    o.last = Wire::dup(&self.last);
  }
}
impl PduSpec for UserElementsPdu { const NAME: &'static str = "UserElementsPdu"; const TYPE: (PduType, u8) = (PduType::LiveEntityDetonation, 50); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::LiveEntityInformationInteraction, 11);
  const FIELDS: &'static [&'static str] = &["n_elements", "elements", "n_attributes", "attributes", "n_beams", "beams"];
  const LISTS: &'static [usize] = &[1, 3, 5];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.n_elements = Wire::gen(g); }
    1 => { self.elements = g.list(65535); }
    2 => { self.n_attributes = Wire::gen(g); }
    3 => { self.attributes = g.list(255); }
    4 => { self.n_beams = Wire::gen(g); }
    5 => { self.beams = g.list(255); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.n_elements = self.elements.len() as u16;
    self.n_attributes = self.attributes.len() as u8;
    self.n_beams = self.beams.len() as u8;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.elements.truncate(keep);
    self.attributes.truncate(keep);
    self.beams.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    w.mark_count();
    Wire::enc(&self.n_elements, w);
    w.enter_list(); for x in &self.elements { Wire::enc(x, w); } w.leave_list();
    w.mark_count();
    Wire::enc(&self.n_attributes, w);
    w.enter_list(); for x in &self.attributes { Wire::enc(x, w); } w.leave_list();
    w.mark_count();
    Wire::enc(&self.n_beams, w);
    w.enter_list(); for x in &self.beams { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.n_elements = Wire::dec(r)?;
    self.elements = { let n = self.n_elements as u64; r.list(n)? };
    self.n_attributes = Wire::dec(r)?;
    self.attributes = { let n = self.n_attributes as u64; r.list(n)? };
    self.n_beams = Wire::dec(r)?;
    self.beams = { let n = self.n_beams as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.n_elements, &o.n_elements) { return Some(format!(".n_elements{d}")); }
    if let Some(d) = Wire::diff(&self.elements, &o.elements) { return Some(format!(".elements{d}")); }
    if let Some(d) = Wire::diff(&self.n_attributes, &o.n_attributes) { return Some(format!(".n_attributes{d}")); }
    if let Some(d) = Wire::diff(&self.attributes, &o.attributes) { return Some(format!(".attributes{d}")); }
    if let Some(d) = Wire::diff(&self.n_beams, &o.n_beams) { return Some(format!(".n_beams{d}")); }
    if let Some(d) = Wire::diff(&self.beams, &o.beams) { return Some(format!(".beams{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.n_elements = Wire::dup(&self.n_elements);
    o.elements = Wire::dup(&self.elements);
    o.n_attributes = Wire::dup(&self.n_attributes);
    o.attributes = Wire::dup(&self.attributes);
    o.n_beams = Wire::dup(&self.n_beams);
    o.beams = Wire::dup(&self.beams);
  }
}
impl PduSpec for UserBitsPdu { const NAME: &'static str = "UserBitsPdu"; const TYPE: (PduType, u8) = (PduType::RecordReliable, 63); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::RadioCommunications, 4);
  const FIELDS: &'static [&'static str] = &["radio_id", "bits", "long_bits", "data", "more", "end"];
  const LISTS: &'static [usize] = &[3, 4];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.radio_id = Wire::gen(g); }
    1 => { self.bits = Wire::gen(g); }
    2 => { self.long_bits = Wire::gen(g); }
    3 => { self.data = g.list(8191); }
    4 => { self.more = g.list(8191); }
    5 => { self.end = Wire::gen(g); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.bits = bits_for(self.data.len(), self.bits as u64) as u16;
    self.long_bits = bits_for(self.more.len(), self.long_bits as u64) as u32;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.data.truncate(keep);
    self.more.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.radio_id, w);
    w.mark_count();
    Wire::enc(&self.bits, w);
    w.mark_count();
    Wire::enc(&self.long_bits, w);
    w.enter_list(); for x in &self.data { Wire::enc(x, w); } w.leave_list();
    w.enter_list(); for x in &self.more { Wire::enc(x, w); } w.leave_list();
    Wire::enc(&self.end, w);
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.radio_id = Wire::dec(r)?;
    self.bits = Wire::dec(r)?;
    self.long_bits = Wire::dec(r)?;
    self.data = { let n = (self.bits as u64).div_ceil(8); r.list(n)? };
    self.more = { let n = (self.long_bits as u64).div_ceil(8); r.list(n)? };
    self.end = Wire::dec(r)?;
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.radio_id, &o.radio_id) { return Some(format!(".radio_id{d}")); }
    if let Some(d) = Wire::diff(&self.bits, &o.bits) { return Some(format!(".bits{d}")); }
    if let Some(d) = Wire::diff(&self.long_bits, &o.long_bits) { return Some(format!(".long_bits{d}")); }
    if let Some(d) = Wire::diff(&self.data, &o.data) { return Some(format!(".data{d}")); }
    if let Some(d) = Wire::diff(&self.more, &o.more) { return Some(format!(".more{d}")); }
    if let Some(d) = Wire::diff(&self.end, &o.end) { return Some(format!(".end{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.radio_id = Wire::dup(&self.radio_id);
    o.bits = Wire::dup(&self.bits);
    o.long_bits = Wire::dup(&self.long_bits);
    o.data = Wire::dup(&self.data);
    o.more = Wire::dup(&self.more);
    o.end = Wire::dup(&self.end);
  }
}
impl PduSpec for UserEnumsPdu { const NAME: &'static str = "UserEnumsPdu"; const TYPE: (PduType, u8) = (PduType::Fire, 2); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::Warfare, 2);
  const FIELDS: &'static [&'static str] = &["force", "algorithm", "record_type", "reason", "event", "tdl", "n_forces", "forces", "n_types", "types"];
  const LISTS: &'static [usize] = &[7, 9];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.force = Wire::gen(g); }
    1 => { self.algorithm = Wire::gen(g); }
    2 => { self.record_type = Wire::gen(g); }
    3 => { self.reason = Wire::gen(g); }
    4 => { self.event = Wire::gen(g); }
    5 => { self.tdl = Wire::gen(g); }
    6 => { self.n_forces = Wire::gen(g); }
    7 => { self.forces = g.list(255); }
    8 => { self.n_types = Wire::gen(g); }
    9 => { self.types = g.list(65535); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.n_forces = self.forces.len() as u8;
    self.n_types = self.types.len() as u16;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.forces.truncate(keep);
    self.types.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.force, w);
    Wire::enc(&self.algorithm, w);
    Wire::enc(&self.record_type, w);
    Wire::enc(&self.reason, w);
    Wire::enc(&self.event, w);
    Wire::enc(&self.tdl, w);
    w.mark_count();
    Wire::enc(&self.n_forces, w);
    w.enter_list(); for x in &self.forces { Wire::enc(x, w); } w.leave_list();
    w.mark_count();
    Wire::enc(&self.n_types, w);
    w.enter_list(); for x in &self.types { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.force = Wire::dec(r)?;
    self.algorithm = Wire::dec(r)?;
    self.record_type = Wire::dec(r)?;
    self.reason = Wire::dec(r)?;
    self.event = Wire::dec(r)?;
    self.tdl = Wire::dec(r)?;
    self.n_forces = Wire::dec(r)?;
    self.forces = { let n = self.n_forces as u64; r.list(n)? };
    self.n_types = Wire::dec(r)?;
    self.types = { let n = self.n_types as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.force, &o.force) { return Some(format!(".force{d}")); }
    if let Some(d) = Wire::diff(&self.algorithm, &o.algorithm) { return Some(format!(".algorithm{d}")); }
    if let Some(d) = Wire::diff(&self.record_type, &o.record_type) { return Some(format!(".record_type{d}")); }
    if let Some(d) = Wire::diff(&self.reason, &o.reason) { return Some(format!(".reason{d}")); }
    if let Some(d) = Wire::diff(&self.event, &o.event) { return Some(format!(".event{d}")); }
    if let Some(d) = Wire::diff(&self.tdl, &o.tdl) { return Some(format!(".tdl{d}")); }
    if let Some(d) = Wire::diff(&self.n_forces, &o.n_forces) { return Some(format!(".n_forces{d}")); }
    if let Some(d) = Wire::diff(&self.forces, &o.forces) { return Some(format!(".forces{d}")); }
    if let Some(d) = Wire::diff(&self.n_types, &o.n_types) { return Some(format!(".n_types{d}")); }
    if let Some(d) = Wire::diff(&self.types, &o.types) { return Some(format!(".types{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.force = Wire::dup(&self.force);
    o.algorithm = Wire::dup(&self.algorithm);
    o.record_type = Wire::dup(&self.record_type);
    o.reason = Wire::dup(&self.reason);
    o.event = Wire::dup(&self.event);
    o.tdl = Wire::dup(&self.tdl);
    o.n_forces = Wire::dup(&self.n_forces);
    o.forces = Wire::dup(&self.forces);
    o.n_types = Wire::dup(&self.n_types);
    o.types = Wire::dup(&self.types);
  }
}
impl PduSpec for UserTwoBlobsPdu { const NAME: &'static str = "UserTwoBlobsPdu"; const TYPE: (PduType, u8) = (PduType::Collision, 4); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::EntityInformation, 1);
  const FIELDS: &'static [&'static str] = &["first", "pattern_length", "modulation_length", "pattern", "middle", "modulation", "n", "rest"];
  const LISTS: &'static [usize] = &[7];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.first = Wire::gen(g); }
    1 => { self.pattern_length = Wire::gen(g); }
    2 => { self.modulation_length = Wire::gen(g); }
    3 => { self.pattern = g.opt(); }
    4 => { self.middle = Wire::gen(g); }
    5 => { self.modulation = g.opt(); }
    6 => { self.n = Wire::gen(g); }
    7 => { self.rest = g.list(255); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.pattern_length = self.pattern.as_ref().map_or(0, |b| blob_len(b)) as u16;
    self.modulation_length = self.modulation.as_ref().map_or(0, |b| blob_len(b)) as u8;
    self.n = self.rest.len() as u8;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.rest.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.first, w);
    w.int(2, self.pattern.as_ref().map_or(0, |b| blob_len(b)) as u64);
    w.int(1, self.modulation.as_ref().map_or(0, |b| blob_len(b)) as u64);
    if let Some(x) = &self.pattern { Wire::enc(x, w); }
    Wire::enc(&self.middle, w);
    if let Some(x) = &self.modulation { Wire::enc(x, w); }
    w.mark_count();
    Wire::enc(&self.n, w);
    w.enter_list(); for x in &self.rest { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.first = Wire::dec(r)?;
    self.pattern_length = Wire::dec(r)?;
    self.modulation_length = Wire::dec(r)?;
    self.pattern = r.opt(self.pattern_length as usize)?;
    self.middle = Wire::dec(r)?;
    self.modulation = r.opt(self.modulation_length as usize)?;
    self.n = Wire::dec(r)?;
    self.rest = { let n = self.n as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.first, &o.first) { return Some(format!(".first{d}")); }
    if let Some(d) = Wire::diff(&self.pattern_length, &o.pattern_length) { return Some(format!(".pattern_length{d}")); }
    if let Some(d) = Wire::diff(&self.modulation_length, &o.modulation_length) { return Some(format!(".modulation_length{d}")); }
    if let Some(d) = diff_opt(&self.pattern, &o.pattern) { return Some(format!(".pattern{d}")); }
    if let Some(d) = Wire::diff(&self.middle, &o.middle) { return Some(format!(".middle{d}")); }
    if let Some(d) = diff_opt(&self.modulation, &o.modulation) { return Some(format!(".modulation{d}")); }
    if let Some(d) = Wire::diff(&self.n, &o.n) { return Some(format!(".n{d}")); }
    if let Some(d) = Wire::diff(&self.rest, &o.rest) { return Some(format!(".rest{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.first = Wire::dup(&self.first);
    o.pattern_length = Wire::dup(&self.pattern_length);
    o.modulation_length = Wire::dup(&self.modulation_length);
    o.pattern = dup_opt(&self.pattern);
    o.middle = Wire::dup(&self.middle);
    o.modulation = dup_opt(&self.modulation);
    o.n = Wire::dup(&self.n);
    o.rest = Wire::dup(&self.rest);
  }
}
impl PduSpec for UserNestedPdu { const NAME: &'static str = "UserNestedPdu"; const TYPE: (PduType, u8) = (PduType::Attribute, 72); const FAMILY: (ProtocolFamily, u8) = (ProtocolFamily::LiveEntityInformationInteraction, 11);
  const FIELDS: &'static [&'static str] = &["specification", "between", "variables", "n_systems", "systems", "n_axes", "kinds", "n_layers", "ends"];
  const LISTS: &'static [usize] = &[0, 2, 4, 6, 8];
  const FIXED: Option<usize> = None;
  fn create() -> Self { Self::new() }
  fn set_field(&mut self, k: usize, g: &mut G) { match k {
    0 => { self.specification = Wire::gen(g); }
    1 => { self.between = Wire::gen(g); }
    2 => { self.variables = Wire::gen(g); }
    3 => { self.n_systems = Wire::gen(g); }
    4 => { self.systems = g.list(255); }
    5 => { self.n_axes = Wire::gen(g); }
    6 => { self.kinds = g.list(255); }
    7 => { self.n_layers = Wire::gen(g); }
    8 => { self.ends = g.list(65535); }
    _ => unreachable!() } }
  fn fix_counts(&mut self) {
    self.n_systems = self.systems.len() as u8;
    self.n_axes = self.kinds.len() as u8;
    self.n_layers = self.ends.len() as u16;
  }
  fn trim_lists(&mut self, keep: usize) {
    self.specification.record_sets.truncate(keep); for e in &mut self.specification.record_sets { e.record_values.truncate(keep); }
    self.variables.standard_variable_records.truncate(keep); for e in &mut self.variables.standard_variable_records { e.record_specific_fields.truncate(keep); }
    self.systems.truncate(keep);
    self.kinds.truncate(keep);
    self.ends.truncate(keep);
  }
  fn enc_body(&self, w: &mut W) {
    Wire::enc(&self.specification, w);
    Wire::enc(&self.between, w);
    Wire::enc(&self.variables, w);
    w.mark_count();
    Wire::enc(&self.n_systems, w);
    w.enter_list(); for x in &self.systems { Wire::enc(x, w); } w.leave_list();
    w.mark_count();
    Wire::enc(&self.n_axes, w);
    w.enter_list(); for x in &self.kinds { Wire::enc(x, w); } w.leave_list();
    w.mark_count();
    Wire::enc(&self.n_layers, w);
    w.enter_list(); for x in &self.ends { Wire::enc(x, w); } w.leave_list();
  }
  fn dec_body(&mut self, r: &mut R) -> Result<(), Short> {
    self.specification = Wire::dec(r)?;
    self.between = Wire::dec(r)?;
    self.variables = Wire::dec(r)?;
    self.n_systems = Wire::dec(r)?;
    self.systems = { let n = self.n_systems as u64; r.list(n)? };
    self.n_axes = Wire::dec(r)?;
    self.kinds = { let n = self.n_axes as u64; r.list(n)? };
    self.n_layers = Wire::dec(r)?;
    self.ends = { let n = self.n_layers as u64; r.list(n)? };
    Ok(())
  }
  fn diff_body(&self, o: &Self) -> Option<String> {
    if let Some(d) = Wire::diff(&self.specification, &o.specification) { return Some(format!(".specification{d}")); }
    if let Some(d) = Wire::diff(&self.between, &o.between) { return Some(format!(".between{d}")); }
    if let Some(d) = Wire::diff(&self.variables, &o.variables) { return Some(format!(".variables{d}")); }
    if let Some(d) = Wire::diff(&self.n_systems, &o.n_systems) { return Some(format!(".n_systems{d}")); }
    if let Some(d) = Wire::diff(&self.systems, &o.systems) { return Some(format!(".systems{d}")); }
    if let Some(d) = Wire::diff(&self.n_axes, &o.n_axes) { return Some(format!(".n_axes{d}")); }
    if let Some(d) = Wire::diff(&self.kinds, &o.kinds) { return Some(format!(".kinds{d}")); }
    if let Some(d) = Wire::diff(&self.n_layers, &o.n_layers) { return Some(format!(".n_layers{d}")); }
    if let Some(d) = Wire::diff(&self.ends, &o.ends) { return Some(format!(".ends{d}")); }
    None
  }
  fn dup_body(&self, o: &mut Self) {
    o.specification = Wire::dup(&self.specification);
    o.between = Wire::dup(&self.between);
    o.variables = Wire::dup(&self.variables);
    o.n_systems = Wire::dup(&self.n_systems);
    o.systems = Wire::dup(&self.systems);
    o.n_axes = Wire::dup(&self.n_axes);
    o.kinds = Wire::dup(&self.kinds);
    o.n_layers = Wire::dup(&self.n_layers);
    o.ends = Wire::dup(&self.ends);
  }
}
pub fn kinds() -> Vec<Box<dyn Kind>> { vec![
  Box::new(KindOf::<UserNumbersPdu>::new()),
  Box::new(KindOf::<UserEmptyPdu>::new()),
  Box::new(KindOf::<UserRecordsPdu>::new()),
  Box::new(KindOf::<UserListsPdu>::new()),
  Box::new(KindOf::<UserRecordListsPdu>::new()),
  Box::new(KindOf::<UserElementsPdu>::new()),
  Box::new(KindOf::<UserBitsPdu>::new()),
  Box::new(KindOf::<UserEnumsPdu>::new()),
  Box::new(KindOf::<UserTwoBlobsPdu>::new()),
  Box::new(KindOf::<UserNestedPdu>::new()),
]}
