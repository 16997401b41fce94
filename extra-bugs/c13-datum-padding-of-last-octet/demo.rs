use bytes::BytesMut;
use open_dis_rust::common::data_types::datum_records::VariableDatumRecord;
use open_dis_rust::pdu_macro::FieldLen;
fn main() {
    for bits in 0..400u32 {
        let v = VariableDatumRecord { datum_id: 7, length_bits: bits, value: vec![0x5A; bits.div_ceil(8) as usize] };
        let mut b = BytesMut::new();
        v.serialize(&mut b);
        assert_eq!(b.len(), v.field_len());
        assert_eq!(b.len() % 8, 0, "{bits} bits");
    }
}
