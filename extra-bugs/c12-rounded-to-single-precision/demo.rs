use open_dis_rust::common::PduHeader;
use std::time::{SystemTime, UNIX_EPOCH};
fn micros() -> u64 { SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_micros() as u64 % 3_600_000_000 }
fn main() {
    let mut seen = 0;
    for _ in 0..200_000 {
        let a = micros();
        let t = u64::from(PduHeader::calculate_dis_timestamp());
        let b = micros();
        if b < a { continue; }
        seen += 1;
        let (lo, hi) = (a * 100 / 168, b * 100 / 168 + 1);
        assert!(t + 1 >= lo && t <= hi, "{t} not in {lo}..{hi}");
    }
    assert!(seen > 0);
}
