use bytes::BytesMut;
use open_dis_rust::common::Pdu;
use open_dis_rust::simulation_management::AcknowledgePdu;
fn main() {
    let mut p = AcknowledgePdu::new();
    let mut one = BytesMut::new();
    p.serialize(&mut one).unwrap();
    for total in [one.len(), 8192, 65535, 65536, 65537, 65547, 65548, 131_072] {
        let mut b = one.to_vec();
        b.resize(total, 0);
        let mut s = &b[..];
        AcknowledgePdu::deserialize(&mut s).unwrap();
        assert_eq!(s.len(), total - one.len());
    }
}
