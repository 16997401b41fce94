use bytes::BytesMut;
use open_dis_rust::common::{data_types::datum_records::FixedDatumRecord, DISError, Pdu};
use open_dis_rust::simulation_management::DataPdu;
fn main() {
    for n in [1100usize, 9000] {
        let mut p = DataPdu::new();
        let empty = usize::from(p.calculate_length().unwrap());
        p.fixed_datum_records = (0..n).map(|_| FixedDatumRecord { datum_id: 1, datum_value: 2 }).collect();
        match p.serialize(&mut BytesMut::new()) {
            Err(DISError::PduSizeExceeded { size, max_size }) => {
                assert_eq!(size, empty + 8 * n);
                assert_eq!(max_size, 8192);
            }
            _ => panic!(),
        }
    }
}
