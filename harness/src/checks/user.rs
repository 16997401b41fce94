//! C22: PDUs that an application defines with the exported macro keep the promises of the library's own.
//! The same monitors, over the PDU types of user.rs.
use super::ensure;
use crate::core::*;
use crate::engine::{hash, Ctx, OnPanic, Section};
use crate::model::*;
use open_dis_rust::common::{
    enums::{PduType, ProtocolFamily},
    GenericHeader, Pdu, PduHeader, SerializedLength,
};

/// Fields that are written and counted, and that nothing in the message delimits: text, and lists
/// and options without a count.
mod text {
    use super::*;
    open_dis_rust::define_pdu! {
        #[derive(Debug)]
        pub struct UserTextPdu {
            header: PduHeader,
            pdu_type: PduType::TimeSpacePositionInformation,
            protocol_family: ProtocolFamily::LiveEntityInformationInteraction,
            fields: {
                pub id: u16,
                pub title: String,
                pub middle: u8,
                pub words: Vec<String>,
                pub numbers: Vec<u32>,
                pub note: Option<String>,
                pub maybe: Option<u64>,
                pub last: i32,
            }
        }
    }
}
/// Other forms of the definition: a type of a module's own that can be cloned, with documentation,
/// private fields, constants and paths.
mod forms {
    use super::*;
    const KIND: PduType = PduType::Appearance;
    const FAMILIES: [ProtocolFamily; 2] = [ProtocolFamily::Other, ProtocolFamily::LiveEntityInformationInteraction];
    open_dis_rust::define_pdu! {
        /// Documentation, and more than one attribute.
        #[derive(Clone, Debug)]
        #[allow(dead_code)]
        struct PrivatePdu {
            header: open_dis_rust::common::pdu_header::PduHeader,
            pdu_type: KIND,
            protocol_family: FAMILIES[1],
            fields: {
                pub(super) id: open_dis_rust::common::data_types::entity_id::EntityId,
                count: u8,
                #[count = usize::from(count) + 1]
                pub(crate) list: std::vec::Vec<i16>,
                pub last: u32,
            }
        }
    }
    pub fn check(cx: &mut Ctx) -> Result<(), String> {
        let mut p = lib(PrivatePdu::new);
        ensure!(p.header().pdu_type == KIND && p.header().protocol_family == ProtocolFamily::LiveEntityInformationInteraction && p.header().length == 12 + 6 + 1 + 4, "forms# a new PDU has the header {:?}", p.header());
        p.header_mut().exercise_id = cx.rng.next() as u8;
        p.id.entity_id = cx.rng.next() as u16;
        p.id.simulation_address.site_id = cx.rng.next() as u16;
        p.count = cx.rng.next() as u8;
        p.list = (0..usize::from(p.count) + 1).map(|_| cx.rng.next() as i16).collect();
        p.last = cx.rng.next() as u32;
        let mut copy = p.clone();
        let (mut a, mut b) = (bytes::BytesMut::new(), bytes::BytesMut::new());
        let done = (lib(|| p.serialize(&mut a)), lib(|| copy.serialize(&mut b)));
        ensure!(done.0.is_ok() && done.1.is_ok() && a == b, "forms# a PDU and its clone: {done:?} {} {}", hex(&a, 200), hex(&b, 200));
        let mut want = bytes::BytesMut::new();
        p.header().serialize(&mut want);
        p.id.serialize(&mut want);
        want.extend_from_slice(&[p.count]);
        want.extend(p.list.iter().flat_map(|x| x.to_be_bytes()));
        want.extend_from_slice(&p.last.to_be_bytes());
        cx.eval(Some(hash(&want)));
        ensure!(a == want && usize::from(p.header().length) == want.len(), "forms# {p:?} is written as {}", hex(&a, 200));
        let got = lib(|| PrivatePdu::deserialize(&mut a.clone().freeze()));
        let Ok(d) = got else { return Err(format!("forms# {} is refused: {got:?}", hex(&a, 200))) };
        ensure!(d.header() == p.header() && d.id == p.id && d.count == p.count && d.list == p.list && d.last == p.last, "forms# {p:?} reads {d:?}");
        Ok(())
    }
}
/// A header of the application's own, longer than the library's.
mod wide {
    use super::*;
    use bytes::{Buf, BufMut, BytesMut};
    use open_dis_rust::pdu_macro::FieldDeserialize;
    #[derive(Clone, Copy, Debug, Default, PartialEq)]
    pub struct WideHeader {
        pub inner: PduHeader,
        pub sequence: u64,
    }
    impl SerializedLength for WideHeader {
        const LENGTH: usize = 20;
    }
    impl GenericHeader for WideHeader {
        fn pdu_type(&self) -> PduType {
            self.inner.pdu_type
        }
        fn set_pdu_type(&mut self, v: PduType) {
            self.inner.pdu_type = v;
        }
        fn protocol_family(&self) -> ProtocolFamily {
            self.inner.protocol_family
        }
        fn set_protocol_family(&mut self, v: ProtocolFamily) {
            self.inner.protocol_family = v;
        }
        fn length(&self) -> u16 {
            self.inner.length
        }
        fn set_length(&mut self, v: u16) {
            self.inner.length = v;
        }
        fn serialize(&self, b: &mut BytesMut) {
            self.inner.serialize(b);
            b.put_u64(self.sequence);
        }
        fn deserialize<B: Buf>(b: &mut B) -> Self {
            WideHeader { inner: <PduHeader as GenericHeader>::deserialize(b), sequence: b.get_u64() }
        }
    }
    impl FieldDeserialize for WideHeader {
        fn deserialize_field<B: Buf>(b: &mut B) -> Self {
            <Self as GenericHeader>::deserialize(b)
        }
    }
    open_dis_rust::define_pdu! {
        #[derive(Debug)]
        pub struct UserWidePdu {
            header: WideHeader,
            pdu_type: PduType::TimeSpacePositionInformation,
            protocol_family: ProtocolFamily::LiveEntityInformationInteraction,
            fields: {
                pub a: u32,
                pub n: u16,
                #[count = n]
                pub list: Vec<u16>,
                pub z: u8,
            }
        }
    }
}
fn c22_header(cx: &mut Ctx) -> Result<(), String> {
    use bytes::BytesMut;
    use open_dis_rust::common::dis_error::DISError;
    use wide::{UserWidePdu, WideHeader};
    let mut p = lib(UserWidePdu::new);
    ensure!(p.header().length() == 27 && p.header().pdu_type() == PduType::TimeSpacePositionInformation, "header# a new PDU has the header {:?}", p.header());
    p.header_mut().sequence = cx.rng.next();
    p.header_mut().inner.exercise_id = cx.rng.next() as u8;
    p.header_mut().inner.timestamp = cx.rng.next() as u32;
    p.a = cx.rng.next() as u32;
    let n = match cx.rng.below(10) {
        0 => 4082 + cx.rng.below(6),
        1 => cx.rng.below(6000),
        _ => cx.rng.below(20),
    };
    p.n = n as u16;
    p.list = (0..n).map(|_| cx.rng.next() as u16).collect();
    p.z = cx.rng.next() as u8;
    let total = 20 + 4 + 2 + 2 * n as usize + 1;
    let mut body = p.a.to_be_bytes().to_vec();
    body.extend(p.n.to_be_bytes());
    body.extend(p.list.iter().flat_map(|x| x.to_be_bytes()));
    body.push(p.z);
    cx.eval(Some(hash(&body)));
    let mut b = BytesMut::from(&b"b4"[..]);
    let got = lib(|| p.serialize(&mut b));
    if total > MAX_PDU {
        ensure!(matches!(got, Err(DISError::PduSizeExceeded { size, .. }) if size == total) && &b[..] == b"b4", "header# {total} octets: {got:?}");
        return Ok(());
    }
    ensure!(got.is_ok() && b.len() == 2 + total, "header# {total} octets: {got:?}, {} written", b.len() - 2);
    let mut want = BytesMut::new();
    p.header().serialize(&mut want);
    want.extend_from_slice(&body);
    ensure!(b[2..] == want[..] && usize::from(p.header().length()) == total, "header# {p:?} is written as {}", hex(&b[2..], 300));
    lib(|| p.finalize());
    ensure!(usize::from(p.header().length()) == total && lib(|| p.calculate_length()).is_ok_and(|l| usize::from(l) == total), "header# {total} octets are declared as {}", p.header().length());
    let m = b[2..].to_vec();
    let same = |how: &str, d: Result<UserWidePdu, DISError>| match d {
        Err(e) => Err(format!("header# {how} it is refused: {e}; {}", hex(&m, 200))),
        Ok(d) if d.header() == p.header() && (d.a, d.n, &d.list, d.z) == (p.a, p.n, &p.list, p.z) => Ok(()),
        Ok(d) => Err(format!("header# {how} it reads {d:?}; {}", hex(&m, 200))),
    };
    let mut long = BytesMut::from(&m[..]);
    long.extend_from_slice(b"behind");
    let d = lib(|| UserWidePdu::deserialize(&mut long));
    same("decoded whole", d)?;
    ensure!(&long[..] == b"behind", "header# decoding leaves {}", hex(&long, 60));
    let mut rest = &m[..];
    let h = <WideHeader as GenericHeader>::deserialize(&mut rest);
    let d = lib(|| UserWidePdu::deserialize_without_header(&mut rest, h));
    same("decoded header first", d)?;
    ensure!(rest.is_empty(), "header# decoding header first leaves {}", hex(rest, 60));
    // what lacks octets, or has no room for the header, or is of another type
    let step = 1 + m.len() / 60;
    for cut in (0..m.len()).step_by(step).chain([19, 20, 21]) {
        let d = lib(|| UserWidePdu::deserialize(&mut &m[..cut]));
        ensure!(matches!(d, Err(DISError::BufferUnderflow { .. })), "header# {cut} of {total} octets give {d:?}");
        let mut c = m.clone();
        set_len(&mut c, cut);
        let d = lib(|| UserWidePdu::deserialize(&mut &c[..]));
        ensure!(d.is_err(), "header# {total} octets declared as {cut} give {d:?}");
    }
    let mut c = m.clone();
    c[2] = if c[2] == 5 { 6 } else { 5 };
    let d = lib(|| UserWidePdu::deserialize(&mut &c[..]));
    ensure!(matches!(d, Err(DISError::InvalidHeader { .. })), "header# another type's message gives {d:?}");
    Ok(())
}
fn c22_text(cx: &mut Ctx) -> Result<(), String> {
    use bytes::BytesMut;
    use open_dis_rust::common::dis_error::DISError;
    use open_dis_rust::pdu_macro::{FieldLen, FieldSerialize};
    let mut p = text::UserTextPdu::new();
    let string = |cx: &mut Ctx| {
        let n = *cx.rng.pick(&[0, 1, 2, 3, 7, 8, 12, 31, 32, 64, 127, 128, 250, 255, 256, 300, 1000, 2000]);
        let n = if cx.rng.chance(50) { n.min(12) } else { n } + cx.rng.below(3);
        (0..n).map(|_| if cx.rng.chance(85) { char::from(0x20 + cx.rng.below(0x5F) as u8) } else { *cx.rng.pick(&['\0', '\n', '\u{7f}', 'é', '\u{4e2d}', '\u{1F680}']) }).collect::<String>()
    };
    p.id = cx.rng.next() as u16;
    p.title = string(cx);
    p.middle = cx.rng.next() as u8;
    p.words = (0..cx.rng.below(6)).map(|_| string(cx)).collect();
    let many = if cx.rng.chance(10) { 2100 } else { 8 };
    p.numbers = (0..cx.rng.below(many)).map(|_| cx.rng.next() as u32).collect();
    p.note = if cx.rng.chance(50) { Some(string(cx)) } else { None };
    p.maybe = if cx.rng.chance(50) { Some(cx.rng.next()) } else { None };
    p.last = cx.rng.next() as i32;
    let mut body = p.id.to_be_bytes().to_vec();
    body.extend(p.title.as_bytes());
    body.push(p.middle);
    body.extend(p.words.iter().flat_map(|w| w.bytes()));
    body.extend(p.numbers.iter().flat_map(|n| n.to_be_bytes()));
    body.extend(p.note.iter().flat_map(|w| w.bytes()));
    body.extend(p.maybe.iter().flat_map(|n| n.to_be_bytes()));
    body.extend(p.last.to_be_bytes());
    cx.eval(Some(hash(&body)));
    cx.count("octets of text", (p.title.len() + p.words.iter().map(String::len).sum::<usize>()) as u64);
    let mut one = BytesMut::new();
    p.title.serialize_field(&mut one);
    ensure!(one == p.title.as_bytes() && p.title.field_len() == one.len(), "text# {:?} is written as {} and counts for {}", p.title, hex(&one, 80), p.title.field_len());
    let mut b = BytesMut::from(&b"before"[..]);
    let got = lib(|| p.serialize(&mut b));
    if body.len() + 12 > MAX_PDU {
        ensure!(matches!(got, Err(DISError::PduSizeExceeded { .. })) && &b[..] == b"before", "text# {} octets: {got:?}", body.len() + 12);
        return Ok(());
    }
    ensure!(got.is_ok(), "text# {} octets are refused: {got:?}", body.len() + 12);
    ensure!(b.len() == 18 + body.len() && b[18..] == body[..], "text# {p:?} is written as {}", hex(&b[6..], 400));
    let (declared, total) = (usize::from(p.header().length), lib(|| p.calculate_length()));
    ensure!(declared == body.len() + 12 && b[14..16] == p.header().length.to_be_bytes() && total.as_ref().is_ok_and(|t| usize::from(*t) == declared), "text# {} octets declared as {declared}, predicted as {total:?}", body.len() + 12);
    // whatever its fields make of that, reading it stays within it
    let mut buf = BytesMut::from(&b[6..]);
    buf.extend_from_slice(b"behind");
    let d = lib(|| text::UserTextPdu::deserialize(&mut buf));
    ensure!(d.is_ok() && &buf[..] == b"behind", "text# reading {} gives {d:?} and leaves {}", hex(&b[6..], 300), hex(&buf, 80));
    Ok(())
}

pub fn c22() -> Vec<Section> {
    let mut all = vec![Section { name: "forms", quick: 1_000, thorough: 100_000, on_panic: OnPanic::Violation, run: forms::check, rule: "a definition with other visibilities, attributes, paths and expressions: clones, layout, round trip" }, Section { name: "text", quick: 4_000, thorough: 400_000, on_panic: OnPanic::Violation, run: c22_text, rule: "a PDU with text, and lists and options that nothing counts, of random contents: octets and length as its fields make them, its size limit, and where reading it ends" }, Section { name: "header", quick: 4_000, thorough: 400_000, on_panic: OnPanic::Violation, run: c22_header, rule: "a PDU under a header of the application's own, of 20 octets: octets, lengths, size limit, both decodings, prefixes, declared lengths, other types" }];
    let groups: [(&str, Vec<Section>); 12] = [
        ("layout", super::encode::c01()),
        ("roundtrip", super::encode::c02()),
        ("length", super::encode::c03()),
        ("limit", super::encode::c04()),
        ("total", super::hostile::c05()),
        ("missing", super::hostile::c06()),
        ("framing", super::decode::c07()),
        ("type", super::headers::c08()),
        ("foreign", super::decode::c09()),
        ("bounded", super::hostile::c15()),
        ("routes", super::decode::c16()),
        ("append", super::state::c18()),
    ];
    for (group, sections) in groups {
        for s in sections {
            // these are about the library's own PDUs and headers
            if ["findings", "headers", "inspect"].contains(&s.name) {
                continue;
            }
            let name: &'static str = Box::leak(format!("{group}-{}", s.name).into_boxed_str());
            all.push(Section { name, quick: (s.quick / 8).max(40), thorough: (s.thorough / 8).max(200), ..s });
        }
    }
    all
}
