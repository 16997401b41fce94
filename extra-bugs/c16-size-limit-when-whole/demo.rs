use open_dis_rust::common::{GenericHeader, Pdu, PduHeader};
use open_dis_rust::simulation_management::AcknowledgePdu;
use bytes::BytesMut;
fn main() {
    let mut b = BytesMut::new();
    AcknowledgePdu::new().serialize(&mut b).unwrap();
    for n in [32u16, 40, 8192, 8193, 20_000, 65_535] {
        let mut m = b.to_vec();
        m.resize(usize::from(n), 0);
        m[8..10].copy_from_slice(&n.to_be_bytes());
        let whole = AcknowledgePdu::deserialize(&mut &m[..]).is_ok();
        let mut s = &m[..];
        let h = PduHeader::deserialize(&mut s);
        let parts = AcknowledgePdu::deserialize_without_header(&mut s, h).is_ok();
        assert_eq!(whole, parts, "{n} octets");
    }
}
