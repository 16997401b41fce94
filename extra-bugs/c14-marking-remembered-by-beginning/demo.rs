use open_dis_rust::common::data_types::entity_marking::EntityMarking;
fn main() {
    let read = |text: &[u8; 11]| {
        let mut octets = vec![1u8];
        octets.extend_from_slice(text);
        EntityMarking::deserialize(&mut &octets[..]).entity_marking_string
    };
    assert_eq!(read(b"PLATOON-1-A"), "PLATOON-1-A");
    assert_eq!(read(b"CONVOY\0\0\0\0\0"), "CONVOY");
    let a = read(b"PLATOON-1-A");
    let b = read(b"PLATOON-2-B");
    let c = read(b"PLATOON-2-C");
    println!("{a} {b} {c}");
    assert!(a == "PLATOON-1-A" && b == "PLATOON-2-B" && c == "PLATOON-2-C");
}
