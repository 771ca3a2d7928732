ID = "c01-same-value"; PROPERTY = "C01"
NEEDS = "a put that stores the same value again under an existing key"
BREAKS = "put reports a new sequence number (a change) without having appended a block"
EDITS = [("src/put.rs", """            if !cas(old_key_data.as_ref(), &new_key_data) {
                return Ok((matched, None));
            }
""", """            if !cas(old_key_data.as_ref(), &new_key_data) {
                return Ok((matched, None));
            }

            // nothing to store when the value stays the same
            if let Some(old) = &old_key_data {
                if old.value == new_key_data.value {
                    return Ok((matched, Some(seq)));
                }
            }
""")]
MAIN = r'''
use hyperbee::Hyperbee;
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let hb = Hyperbee::from_ram().await.unwrap();
    for i in 0..20u32 {
        hb.put(format!("k{i:02}").as_bytes(), Some(b"v")).await.unwrap();
    }
    let before = hb.version().await;
    let (_, seq) = hb.put(b"k07", Some(b"v")).await.unwrap();
    assert_eq!(seq, before);
    assert_eq!(hb.version().await, before + 1, "a reported change appended no block");
}
'''
