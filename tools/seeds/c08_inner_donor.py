ID = "c08-inner-donor"; PROPERTY = "C08"
NEEDS = "a delete after which an inner node takes an entry and a child from its right sibling"
BREAKS = "the donor, an inner node on the right, is recorded but its parent keeps the reference to the old version, so a subtree hangs in two places"
EDITS = [("src/del.rs", "        let donated_child = self.get_donor_child(donor.clone()).await;\n", "        let donated_child = self.get_donor_child(donor.clone()).await;\n        let inner = donated_child.is_some();\n"),
         ("src/del.rs", "        wchildren!(father)[donor_index] = changes.add_node(donor);\n",
          "        let donor_ref = changes.add_node(donor);\n        if !inner || donor_index < deficient_index {\n            wchildren!(father)[donor_index] = donor_ref;\n        }\n")]
MAIN = r'''
use futures_lite::StreamExt;
use hyperbee::{traverse::TraverseConfig, Hyperbee};
use std::collections::BTreeSet;

async fn keys(hb: &Hyperbee) -> Vec<Vec<u8>> {
    let s = hb.traverse(TraverseConfig::default()).await.unwrap();
    tokio::pin!(s);
    let mut out = vec![];
    while let Some(x) = s.next().await {
        out.push(x.unwrap().key);
    }
    out
}

async fn run() {
    let hb = Hyperbee::from_ram().await.unwrap();
    let mut model = BTreeSet::new();
    for i in (0..500u32).map(|i| i * 293 % 500) {
        let k = i.to_be_bytes().to_vec();
        hb.put(&k, None).await.unwrap();
        model.insert(k);
    }
    for i in (0..400u32).map(|i| i * 137 % 500) {
        let k = i.to_be_bytes().to_vec();
        hb.del(&k).await.unwrap();
        model.remove(&k);
        assert_eq!(keys(&hb).await, model.iter().cloned().collect::<Vec<_>>(), "after deleting {i}");
    }
}

fn main() {
    std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(run());
    }).unwrap().join().unwrap();
}
'''
