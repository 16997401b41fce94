//! C20 constructors, C21 errors.
use super::ensure;
use crate::core::*;
use crate::engine::{hash, Ctx, OnPanic, Section};
use crate::model::*;
use crate::spec::*;
use bytes::BytesMut;
use open_dis_rust::common::DISError;
use open_dis_rust::pdu_macro::{FieldLen, FieldSerialize};

const V: OnPanic = OnPanic::Violation;
type Res = Result<(), String>;

// ------------------------------------------------------------------ C20
pub fn c20() -> Vec<Section> {
    vec![
        Section { name: "records", quick: 60_000, thorough: 6_000_000, on_panic: V, run: c20_records, rule: "each record constructor with generated arguments, every field of the result compared with its argument; non-trivial: not all arguments equal" },
        Section { name: "plain", quick: 1_000, thorough: 20_000, on_panic: V, run: c20_plain, rule: "the constructors without arguments against the records' defaults; the grids' constructors with generated arguments" },
        Section { name: "pdus", quick: 660, thorough: 6_600, on_panic: V, run: c20_pdus, rule: "each PDU type's new and default values: bodies equal, of the length new declares, encodable, decodable to the same" },
    ]
}
type Ctor = (&'static str, fn(&mut G) -> Result<u64, String>);
macro_rules! ctor {
    ($t:ident: $($a:ident => $($f:ident).+),*) => {
        (stringify!($t), |g| {
            $(let $a = Wire::gen(g);)*
            let v = lib(|| $t::new($(Wire::dup(&$a)),*));
            let mut w = W::new();
            $(
                if let Some(d) = Wire::diff(&v.$($f).+, &$a) {
                    return Err(format!("{}::new puts another value in {}: {d} (stored vs given)", stringify!($t), stringify!($($f).+)));
                }
                Wire::enc(&$a, &mut w);
            )*
            Ok(hash(&w.b))
        })
    };
}
macro_rules! same {
    ($t:ident: $($a:ident),*) => { ctor!($t: $($a => $a),*) };
}
const CTORS: &[Ctor] = &[
    same!(AcousticBeamData: beam_data_length, beam_id_number, pad2, fundamental_data_parameters),
    same!(AcousticBeamFundamentalParameter: active_emission_parameter_index, scan_pattern, beam_center_azimuth, azimuthal_beamwidth, beam_center_de, de_beamwidth),
    same!(AcousticEmitterSystem: acoustic_name, acoustic_function, acoustic_id),
    same!(AcousticEmitterSystemData: emitter_system_data_length, number_of_beams, pad2, acoustic_emitter_system, emitter_location, beam_records),
    same!(AggregateId: site, application, aggregate_id),
    same!(AggregateMarking: character_set, characters),
    same!(ApaData: parameter_index, parameter_value),
    same!(BeamData: beam_azimuth_center, beam_azimuth_sweep, beam_elevation_center, beam_elevation_sweep, beam_sweep_sync),
    ctor!(ClockTime: h => hour, p => time_past_hour),
    same!(DeadReckoningParameters: dead_reckoning_algorithm, entity_linear_acceleration, entity_angular_velocity),
    same!(DirectedEnergyDamage: record_type, record_length, damage_location, damage_diameter, temperature, component_identification, component_damage_status, component_visual_damage_status, component_visual_smoke_color, fire_event_id),
    ctor!(EmitterSystem: name => emitter_name, function => function, id => emitter_id_number),
    ctor!(EntityCoordinateVector: x => x_coordinate, y => y_coordinate, z => z_coordinate),
    ctor!(EntityId: a => simulation_address.site_id, b => simulation_address.application_id, c => entity_id),
    same!(EntityType: kind, domain, country, category, subcategory, specific, extra),
    same!(Environment: environment_type, length, index, padding),
    same!(EulerAngles: psi, theta, phi),
    ctor!(EventId: a => simulation_address.site_id, b => simulation_address.application_id, c => event_identifier),
    same!(FundamentalOperationalData: system_status, data_field1, information_layers, data_field2, parameter1, parameter2, parameter3, parameter4, parameter5, parameter6),
    same!(IFFFundamentalParameterData: erp, frequency, pgrf, pulse_width, burst_length, applicable_modes, system_specific_data),
    same!(IntercomCommunicationsParameters: record_type, record_length, record_specific_field),
    same!(LayerHeader: layer_number, layer_specific_information, length),
    ctor!(LinearAcceleration: x => first_vector_component, y => second_vector_component, z => third_vector_component),
    same!(LinearSegmentParameter: segment_number, segment_modification, general_segment_appearance, specific_segment_appearance, segment_location, segment_orientation, segment_length, segment_width, segment_height, segment_depth),
    ctor!(LinearVelocity: x => first_vector_component, y => second_vector_component, z => third_vector_component),
    same!(MinefieldIdentifier: simulation_address, minefield_number),
    same!(ModulationType: spread_spectrum, major, detail, system),
    same!(MunitionDescriptor: munition_type, warhead, fuse, quantity, rate),
    same!(NamedLocation: station_name, station_number),
    same!(ObjectType: domain, object_kind, category, subcategory),
    same!(Point: x, y),
    same!(PropulsionSystemData: power_setting, engine_rpm),
    same!(RadioEntityType: entity_kind, domain, country, category, nomenclature_version, nomenclature),
    same!(RecordSpecification: number_of_record_sets, record_sets),
    same!(RecordSpecificationElement: record_id, record_set_serial_number, record_length, record_count, record_values),
    same!(Relationship: nature, position),
    same!(SecondaryOperationalData: operational_data1, operational_data2, number_of_iff_fundamental_parameter_records),
    same!(ShaftRPMs: current_shaft_rpms, ordered_shaft_rpms, shaft_rpm_rate_of_change),
    same!(SimulationAddress: site_id, application_id),
    same!(StandardVariableRecords: record_type, record_length, record_specific_fields),
    same!(StandardVariableSpecification: number_of_standard_variable_records, standard_variable_records),
    same!(SupplyQuantity: supply_type, quantity),
    same!(SystemId: system_type, system_name, system_mode, change_options),
    same!(VariableParameter: record_type, variable_parameter_field1, variable_parameter_field2, variable_parameter_field3, variable_parameter_field4),
    same!(Vector3Double: x, y, z),
    same!(Vector3Float: x, y, z),
    same!(VectoringNozzleSystemData: horizontal_deflection_angle, vertical_deflection_angle),
    ctor!(VelocityVector: x => first_vector_component, y => second_vector_component, z => third_vector_component),
    same!(WorldCoordinate: x, y, z),
    ("EntityMarking", |g| {
        let (set, text): (open_dis_rust::common::enums::EntityMarkingCharacterSet, String) = (Wire::gen(g), g.text());
        let v = lib(|| EntityMarking::new(set, text.clone()));
        if v.entity_marking_character_set as u64 != set as u64 || v.entity_marking_string != text {
            return Err(format!("EntityMarking::new of {set:?} {text:?} gives {v:?}"));
        }
        Ok(hash(text.as_bytes()))
    }),
];
fn c20_records(cx: &mut Ctx) -> Res {
    let (name, f) = CTORS[(cx.idx % CTORS.len() as u64) as usize];
    let mut g = cx.gen();
    // arguments need not agree with one another, nor texts fit
    g.consistent = cx.idx / CTORS.len() as u64 % 2 == 0;
    g.weird_text = !g.consistent;
    let h = f(&mut g)?;
    cx.eval(Some(h ^ hash(name.as_bytes())));
    cx.sample(|| name.to_string());
    Ok(())
}
fn c20_plain(cx: &mut Ctx) -> Res {
    macro_rules! plain {
        ($($t:ident),*) => { $({
            let (a, b) = lib(|| ($t::new(), $t::default()));
            let mut w = W::new();
            Wire::enc(&b, &mut w);
            cx.eval(Some(hash(&w.b) ^ hash(stringify!($t).as_bytes())));
            if let Some(d) = Wire::diff(&a, &b) {
                return Err(format!("{}::new is not the default: {d}", stringify!($t)));
            }
        })* };
    }
    plain!(AngularVelocity, AttributeRecord, AttributeRecordSet, ObjectIdentifier, SimulationIdentifier, VariableTransmitterParameters);
    let (a, m) = lib(|| (AntennaPattern::new(), ModulationParameters::new()));
    let (mut x, mut y) = (BytesMut::new(), BytesMut::new());
    lib(|| (FieldSerialize::serialize_field(&a, &mut x), FieldSerialize::serialize_field(&m, &mut y)));
    ensure!(x.is_empty() && y.is_empty() && a.field_len() == 0 && m.field_len() == 0, "new antenna pattern or modulation parameters are not empty: {a:?} {m:?}");
    let mut g = cx.gen();
    let want: GridAxisDescriptor = Wire::gen(&mut g);
    let c = want.clone();
    let got = lib(|| GridAxisDescriptor::new(c.domain_initial, c.domain_final, c.domain_points, c.interleaf_factor, c.axis_type, c.data));
    if let Some(d) = Wire::diff(&got, &want) {
        return Err(format!("GridAxisDescriptor::new puts another value in a field: {d}"));
    }
    let want: GridDataRecord = Wire::gen(&mut g);
    let c = want.clone();
    let got = lib(|| GridDataRecord::new(c.sample_type, c.data_representation, c.data));
    if let Some(d) = Wire::diff(&got, &want) {
        return Err(format!("GridDataRecord::new puts another value in a field: {d}"));
    }
    cx.eval(Some(mix(cx.seed)));
    Ok(())
}
fn c20_pdus(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let (mut a, mut b) = (lib(|| k.create()), lib(|| k.default_pdu()));
    cx.eval(Some(cx.idx % cx.env.kinds.len() as u64));
    cx.sample(|| a.debug());
    if let Some(e) = a.diff(&*b) {
        return Err(format!("{}# new and default differ: {e}", k.name()));
    }
    let l = lib(|| a.lib_length()).map_err(|e| format!("{}# new: {e}", k.name()))?;
    ensure!(l == a.header().length, "{}# new declares length {}, computes {l}", k.name(), a.header().length);
    for (how, p) in [("new", &mut a), ("default", &mut b)] {
        let w = ser(&mut **p).map_err(|e| format!("{}# {how} cannot be encoded: {e}", k.name()))?;
        ensure!(w.len() == usize::from(l), "{}# {how} takes {} octets, not {l}", k.name(), w.len());
        let (d, left) = de(k, &w);
        let d = d.map_err(|e| format!("{}# {how}, encoded, is rejected: {e}; {}", k.name(), hex(&w, 200)))?;
        ensure!(left == 0 && d.header() == p.header(), "{}# {how}, encoded, decodes with header {:?} instead of {:?}, {left} octets left", k.name(), d.header(), p.header());
        if let Some(e) = p.diff(&*d) {
            return Err(format!("{}# {how}, encoded, decodes differently: {e}", k.name()));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C21
pub fn c21() -> Vec<Section> {
    vec![
        Section { name: "size", quick: 6_000, thorough: 300_000, on_panic: V, run: c21_size, rule: "PDUs over 8192 octets, by one list or several: the error of serializing and of computing the length is the size error with the true size and the limit" },
        Section { name: "type", quick: 20_000, thorough: 1_000_000, on_panic: V, run: c21_type, rule: "complete messages of one PDU type offered to another's decoder, whole and header first: the invalid-header error" },
        Section { name: "missing", quick: 20_000, thorough: 1_000_000, on_panic: V, run: c21_missing, rule: "prefixes of well-formed messages, and counts raised beyond the message: the underflow error, attempting more than available" },
        Section { name: "texts", quick: 20_000, thorough: 1_000_000, on_panic: V, run: c21_texts, rule: "errors made by their constructors hold what they were made of, and their texts and sources name it" },
    ]
}
fn c21_size(cx: &mut Ctx) -> Res {
    let lists: Vec<usize> = cx.env.kinds.iter().enumerate().filter(|(_, k)| !k.lists().is_empty()).map(|x| x.0).collect();
    let k: &dyn Kind = &*cx.env.kinds[lists[(cx.idx % lists.len() as u64) as usize]];
    let Some(s) = Sized_::pick(cx, k, true, false) else { return Ok(()) };
    let t = *cx.rng.pick(&[8192usize, 8192, 8300, 9000, 16384, 65535, 65536, 65536 + 4096, 131_072]);
    let extra = 1 + cx.rng.below(3);
    let mut p = s.make(cx, k, s.count_for(t) + extra);
    let n = ref_encode(k, &*p).len();
    if n <= MAX_PDU {
        return Ok(());
    }
    cx.eval(Some(mix(n as u64) ^ hash(k.name().as_bytes())));
    cx.sample(|| format!("{} of {n} octets", k.name()));
    let mut b = BytesMut::new();
    for (op, r) in [("serializing", lib(|| p.lib_serialize(&mut b)).err()), ("computing the length", lib(|| p.lib_length()).err())] {
        match r {
            None => cx.count("over the limit, yet accepted (left to C04)", 1),
            Some(DISError::PduSizeExceeded { size, max_size }) => ensure!(size == n && max_size == MAX_PDU, "{}# of {n} octets: {op} says {size} octets exceed {max_size}", k.name()),
            Some(e) => return Err(format!("{}# of {n} octets: {op} says {e:?}", k.name())),
        }
    }
    Ok(())
}
fn kind_of(r: Result<Box<dyn Dyn>, DISError>) -> Option<DISError> {
    r.err()
}
fn c21_type(cx: &mut Ctx) -> Res {
    let (k, o) = (cx.kind(cx.idx), cx.kind(cx.rng.clone().next()));
    cx.rng.next();
    let p = generate(cx, k, true);
    let mut b = ref_encode(k, &*p);
    if cx.rng.chance(30) && b.len() > 2 {
        b[2] = cx.rng.next() as u8;
    }
    if b[2] == o.ty().1 || b.len() > MAX_PDU {
        return Ok(());
    }
    cx.eval(Some(what(o, &b)));
    cx.sample(|| format!("{} to {}", k.name(), o.name()));
    let mut s = &b[..];
    let whole = kind_of(lib(|| o.lib_decode_slice(&mut s)));
    let mut s = &b[12..];
    let h = header_of(&b);
    let body = if h.pdu_type as u64 == o.ty().0 as u64 { None } else { Some(kind_of(lib(|| o.lib_decode_body(&mut s, h)))) };
    for (way, e) in [("whole", Some(whole)), ("header first", body)] {
        match e {
            None | Some(Some(DISError::InvalidHeader { .. })) => {}
            Some(None) => cx.count("accepted (left to C08)", 1),
            Some(Some(e)) => return Err(format!("{}# rejects a message of type {} {way} with {e:?}", o.name(), b[2])),
        }
    }
    Ok(())
}
fn c21_missing(cx: &mut Ctx) -> Res {
    let k = cx.kind(cx.idx);
    let p = generate(cx, k, true);
    let w = ref_encode_spans(k, &*p, true);
    let mut b = w.b;
    if b.len() > MAX_PDU || must_accept(k, &b) != Some(true) {
        return Ok(());
    }
    let counts: Vec<_> = w.spans.iter().filter(|s| s.2 == Span::Count).copied().collect();
    if !counts.is_empty() && cx.rng.chance(40) {
        let (at, n, _) = *cx.rng.pick(&counts);
        let old = b[at..at + n].iter().fold(0u64, |a, x| a << 8 | u64::from(*x));
        let v = old + 1 + cx.rng.below(300);
        b[at..at + n].copy_from_slice(&v.to_be_bytes()[8 - n..]);
    } else {
        let n = cx.rng.below(b.len() as u64) as usize;
        b.truncate(n);
        if n >= 12 && cx.rng.chance(50) {
            set_len(&mut b, n);
        }
    }
    let short = match ref_decode(k, &b) {
        Ref::Reject(why) => why,
        _ => return Ok(()),
    };
    if b.len() >= 12 && (b[2] != k.ty().1 || usize::from(u16::from_be_bytes([b[8], b[9]])) < 12) {
        return Ok(());
    }
    cx.eval(Some(what(k, &b)));
    cx.sample(|| format!("{}: {short}", k.name()));
    let mut s = &b[..];
    match kind_of(lib(|| k.lib_decode_slice(&mut s))) {
        None => cx.count("accepted (left to C06)", 1),
        Some(DISError::BufferUnderflow { attempted, available }) => {
            ensure!(attempted > available, "{}# {short}: attempted {attempted}, available {available}; {}", k.name(), hex(&b, 100));
            ensure!(b.len() >= 12 || available == b.len(), "{}# of {} octets: {available} available", k.name(), b.len());
        }
        Some(e) => return Err(format!("{}# {short}: {e:?}; {}", k.name(), hex(&b, 200))),
    }
    Ok(())
}

fn c21_texts(cx: &mut Ctx) -> Res {
    use std::error::Error;
    let num = |cx: &mut Ctx| match cx.rng.below(4) {
        0 => cx.rng.below(20),
        1 => 8192 + cx.rng.below(3) - 1,
        2 => cx.rng.below(200_000),
        _ => cx.rng.next(),
    } as usize;
    let (x, y) = (num(cx), num(cx));
    let mut g = cx.gen();
    let (r, v, w) = (g.text(), g.text(), g.text());
    let inner = format!("inner {x}");
    let src = cx.rng.chance(50);
    let source = || src.then(|| Box::<dyn Error + Send + Sync>::from(inner.clone()));
    cx.eval(Some(hash(r.as_bytes()) ^ mix(x as u64)));
    let (io, made) = lib(|| {
        (
            DISError::from(std::io::Error::other(inner.clone())),
            [
                DISError::invalid_header(r.clone(), source()),
                DISError::deserialization_error(r.clone(), source()),
                DISError::serialization_error(r.clone(), source()),
                DISError::invalid_field(r.clone(), v.clone(), w.clone()),
                DISError::buffer_underflow(x, y),
                DISError::pdu_size_exceeded(x, y),
            ],
        )
    });
    let kept = [
        matches!(&made[0], DISError::InvalidHeader { reason, .. } if *reason == r),
        matches!(&made[1], DISError::DeserializationError { msg, .. } if *msg == r),
        matches!(&made[2], DISError::SerializationError { msg, .. } if *msg == r),
        matches!(&made[3], DISError::InvalidFieldValue { field, value, reason } if *field == r && *value == v && *reason == w),
        matches!(&made[4], DISError::BufferUnderflow { attempted, available } if *attempted == x && *available == y),
        matches!(&made[5], DISError::PduSizeExceeded { size, max_size } if *size == x && *max_size == y),
    ];
    for (i, e) in made.iter().enumerate() {
        ensure!(kept[i], "an error made of {r:?} {v:?} {w:?} {x} {y} is {e:?}");
        let t = lib(|| e.to_string());
        let in_order = |parts: &[&str]| parts.iter().try_fold(0, |at, p| t[at..].find(p).map(|i| at + i + p.len())).is_some();
        let (a, b) = (x.to_string(), y.to_string());
        let named = match i {
            0..=2 => in_order(&[&r]),
            3 => in_order(&[&r, &v, &w]),
            _ => in_order(&[&a, &b]),
        };
        ensure!(named, "the text of {e:?} is {t:?}");
        let s = e.source().map(ToString::to_string);
        ensure!(s == (src && i < 3).then(|| inner.clone()), "the source of {e:?} is {s:?}");
    }
    ensure!(io.to_string().contains(&inner) && matches!(&io, DISError::NetworkError(e) if e.to_string() == inner), "an input/output error becomes {io:?}");
    cx.sample(|| made[5].to_string());
    Ok(())
}
