use bytes::BytesMut;
use open_dis_rust::common::Pdu;
use open_dis_rust::common::data_types::record_specification::RecordSpecification;
use open_dis_rust::common::data_types::record_specification_element::RecordSpecificationElement;
use open_dis_rust::simulation_management_with_reliability::SetRecordReliablePdu;
fn main() {
    for (len, n) in [(256, 256), (512, 128), (4, 2), (0, 9), (4096, 16), (257, 256)] {
        let mut p = SetRecordReliablePdu::new();
        p.record_sets = RecordSpecification::new(1, vec![RecordSpecificationElement::new(1, 2, len, n, vec![])]);
        let mut b = BytesMut::new();
        p.serialize(&mut b).unwrap();
        let lacks = u32::from(len) * u32::from(n) > 0;
        assert_eq!(SetRecordReliablePdu::deserialize(&mut &b[..]).is_err(), lacks, "{len} x {n}");
    }
}
