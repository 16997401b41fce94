use bytes::BytesMut;
use open_dis_rust::common::Pdu;
use open_dis_rust::simulation_management::{AcknowledgePdu, DataPdu};
fn main() {
    let mut b = BytesMut::new();
    AcknowledgePdu::new().serialize(&mut b).unwrap();
    let mut bad = BytesMut::new();
    let mut d = DataPdu::new();
    d.serialize(&mut bad).unwrap();
    let n = bad.len();
    for i in n - 8..n { bad[i] = 0xFF; }
    for _ in 0..6000 {
        assert!(DataPdu::deserialize(&mut &bad[..]).is_err());
    }
    AcknowledgePdu::deserialize(&mut &b[..]).expect("a good message");
}
