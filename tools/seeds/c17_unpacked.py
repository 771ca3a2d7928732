ID = "c17-unpacked"; PROPERTY = "C17"
NEEDS = "a tree with an inner node, read by another implementation; this crate reads both encodings back"
BREAKS = "child references are written one by one instead of packed, which other implementations cannot read"
EDITS = [("src/schema.proto", "repeated uint64 children = 2 [packed=true];", "repeated uint64 children = 2;")]
MAIN = r'''
use hyperbee::Hyperbee;
// (field, wire type, payload) of a message
fn parse(b: &[u8]) -> Vec<(u64, u64, Vec<u8>)> {
    fn varint(b: &[u8], i: &mut usize) -> u64 {
        let (mut v, mut s) = (0u64, 0);
        loop {
            let x = b[*i];
            *i += 1;
            v |= ((x & 0x7f) as u64) << s;
            s += 7;
            if x < 0x80 { return v; }
        }
    }
    let (mut i, mut out) = (0, vec![]);
    while i < b.len() {
        let t = varint(b, &mut i);
        let n = varint(b, &mut i) as usize;
        if t & 7 == 2 {
            out.push((t >> 3, 2, b[i..i + n].to_vec()));
            i += n;
        } else {
            out.push((t >> 3, t & 7, vec![n as u8]));
        }
    }
    out
}
fn main() {
    let dir = std::env::temp_dir().join("c17-unpacked-db");
    std::fs::create_dir_all(&dir).unwrap();
    tokio::runtime::Runtime::new().unwrap().block_on(async {
        let hb = Hyperbee::from_storage_dir(&dir).await.unwrap();
        for i in 0..20u8 {
            hb.put(&[i], Some(&[i])).await.unwrap();
        }
        assert_eq!(hb.get(&[3]).await.unwrap().unwrap().1, Some(vec![3]));
    });
    let data = std::fs::read(dir.join("blocks")).unwrap();
    let (mut i, mut blocks) = (0, vec![]);
    while i < data.len() {
        let n = u64::from_le_bytes(data[i..i + 8].try_into().unwrap()) as usize;
        blocks.push(data[i + 8..i + 8 + n].to_vec());
        i += 8 + n;
    }
    let mut inner = 0;
    for b in &blocks[1..] {
        for (f, w, index) in parse(b) {
            assert_eq!(w, 2);
            if f != 1 { continue; }
            for (_, _, level) in parse(&index) {
                for (f, w, _) in parse(&level) {
                    assert_eq!(w, 2, "field {f} of a node is not packed");
                    inner += (f == 2) as usize;
                }
            }
        }
    }
    assert!(inner > 0);
}
'''
