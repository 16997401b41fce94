use bytes::BytesMut;
use open_dis_rust::common::Pdu;
use open_dis_rust::entity_management::IsGroupOfPdu;
fn main() {
    let mut p = IsGroupOfPdu::new();
    let mut b = BytesMut::new();
    p.serialize(&mut b).unwrap();
    for cut in 12..b.len() {
        let mut m = b[..cut].to_vec();
        m[8..10].copy_from_slice(&(cut as u16).to_be_bytes());
        assert!(IsGroupOfPdu::deserialize(&mut &m[..]).is_err(), "{cut} of {} octets", b.len());
    }
}
