ID = "c10-mirror"; PROPERTY = "C10"
NEEDS = "a delete after which an inner node takes an entry and a child from its left sibling"
BREAKS = "the child that comes with an entry from the left sibling is attached at the far end of the node, so the order of the keys is lost"
EDITS = [("src/del.rs", "                    wchildren!(deficient_child).insert(0, child);\n", "                    wchildren!(deficient_child).push(child);\n")]
MAIN = r'''
use futures_lite::StreamExt;
use hyperbee::{traverse::TraverseConfig, Hyperbee};
use std::collections::BTreeSet;

async fn keys(hb: &Hyperbee) -> Vec<Vec<u8>> {
    let s = hb.traverse(TraverseConfig::default()).await.unwrap();
    tokio::pin!(s);
    let mut out = vec![];
    while let Some(x) = s.next().await {
        out.push(x.unwrap().key);
    }
    out
}

async fn run() {
    let hb = Hyperbee::from_ram().await.unwrap();
    let mut model = BTreeSet::new();
    for i in (0..500u32).map(|i| i * 293 % 500) {
        let k = i.to_be_bytes().to_vec();
        hb.put(&k, None).await.unwrap();
        model.insert(k);
    }
    for i in (0..400u32).map(|i| i * 137 % 500) {
        let k = i.to_be_bytes().to_vec();
        hb.del(&k).await.unwrap();
        model.remove(&k);
        assert_eq!(keys(&hb).await, model.iter().cloned().collect::<Vec<_>>(), "after deleting {i}");
    }
}

fn main() {
    std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(run());
    }).unwrap().join().unwrap();
}
'''
