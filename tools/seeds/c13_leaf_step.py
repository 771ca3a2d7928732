ID = "c13-first-child"; PROPERTY = "C13"
NEEDS = "a reversed traversal whose excluded upper bound is the lowest key of a node that has children"
BREAKS = "a reversed traversal skips the first child of an inner node when its excluded upper bound is the node's lowest key"
EDITS = [("src/traverse.rs", """                if key_index == 1 && step_by == 2 {
""", """                if index == 0 {
""")]
MAIN = r'''
use hyperbee::{traverse::{LimitValue, TraverseConfig}, Hyperbee};
use futures_lite::StreamExt;
fn main() {
    std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(async {
        let hb = Hyperbee::from_ram().await.unwrap();
        for i in 0..40u8 { hb.put(&[i], Some(&[i])).await.unwrap(); }
        for max in 0..40u8 {
            let conf = TraverseConfig { max_value: LimitValue::Finite(vec![max]), max_inclusive: false, reversed: true, ..Default::default() };
            let stream = hb.traverse(conf).await.unwrap();
            tokio::pin!(stream);
            let mut keys = vec![];
            while let Some(kv) = stream.next().await { keys.push(kv.unwrap().key); }
            assert_eq!(keys, (0..max).rev().map(|i| vec![i]).collect::<Vec<_>>());
        }
    });
    }).unwrap().join().unwrap();
}
'''
