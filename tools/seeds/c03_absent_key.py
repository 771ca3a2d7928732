ID = "c03-absent-key"; PROPERTY = "C03"
NEEDS = "a compare-and-swap put of an absent key into a tree that is not empty, with a predicate that refuses"
BREAKS = "the predicate is not asked (and its refusal ignored) when the key is absent"
EDITS = [("src/put.rs", """            if !cas(old_key_data.as_ref(), &new_key_data) {
                return Ok((matched, None));
            }
""", """            if let Some(old_key_data) = old_key_data.as_ref() {
                if !cas(Some(old_key_data), &new_key_data) {
                    return Ok((matched, None));
                }
            }
""")]
MAIN = r'''
use hyperbee::Hyperbee;
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let hb = Hyperbee::from_ram().await.unwrap();
    hb.put(b"a", None).await.unwrap();
    let mut n = 0;
    let r = hb.put_compare_and_swap(b"b", None, |_, _| { n += 1; false }).await.unwrap();
    assert_eq!(n, 1);
    assert_eq!(r, (None, None));
    assert_eq!(hb.get(b"b").await.unwrap(), None);
}
'''
