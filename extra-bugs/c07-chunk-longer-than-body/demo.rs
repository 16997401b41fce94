use bytes::{Buf, BytesMut};
use open_dis_rust::common::Pdu;
use open_dis_rust::simulation_management::AcknowledgePdu;
fn main() {
    let mut p = AcknowledgePdu::new();
    let mut b = BytesMut::new();
    p.serialize(&mut b).unwrap();
    b.extend_from_slice(&[0xAA; 10]);
    let n = b.len();
    b[8..10].copy_from_slice(&(n as u16).to_be_bytes());
    b.extend_from_slice(b"next");
    for at in 1..n + 4 {
        let mut c = (&b[..at]).chain(&b[at..]);
        AcknowledgePdu::deserialize(&mut c).unwrap();
        assert_eq!(c.remaining(), 4, "cut at {at}");
    }
}
