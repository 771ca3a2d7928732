ID = "c11-empty-infinity"; PROPERTY = "C11"
NEEDS = "an empty key in the tree and a traversal whose lower bound is negative infinity, given as exclusive"
BREAKS = "negative infinity compares equal to the empty key instead of strictly below it"
EDITS = [("src/keys.rs", """    fn partial_cmp(&self, _other: &[u8]) -> Option<std::cmp::Ordering> {
        Some(match self {
            Positive => Ordering::Greater,
            Negative => Ordering::Less,
""", """    fn partial_cmp(&self, other: &[u8]) -> Option<std::cmp::Ordering> {
        Some(match self {
            Positive => Ordering::Greater,
            // nothing is below the empty key
            Negative if other.is_empty() => Ordering::Equal,
            Negative => Ordering::Less,
""")]
MAIN = r'''
use hyperbee::{traverse::{LimitValue, TraverseConfig}, Hyperbee};
use futures_lite::StreamExt;
fn main() {
    std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(async {
        let hb = Hyperbee::from_ram().await.unwrap();
        for k in ["", "a", "b"] { hb.put(k.as_bytes(), Some(b"x")).await.unwrap(); }
        let conf = TraverseConfig { min_inclusive: false, ..Default::default() };
        let _ = LimitValue::from(0);
        let stream = hb.traverse(conf).await.unwrap();
        tokio::pin!(stream);
        let mut keys = vec![];
        while let Some(kv) = stream.next().await { keys.push(kv.unwrap().key); }
        assert_eq!(keys, vec![b"".to_vec(), b"a".to_vec(), b"b".to_vec()]);
    });
    }).unwrap().join().unwrap();
}
'''
