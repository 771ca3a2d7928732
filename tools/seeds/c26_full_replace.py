ID = "c26-full-replace"; PROPERTY = "C26"
NEEDS = "a put of a key that is already stored in a node that holds as many keys as fit, and a delete of that key afterwards"
BREAKS = "the entry is put next to the old one instead of in its place: a traversal lists the key twice and after a delete a get still answers the old value"
EDITS = [("src/put.rs", "                if matched.is_some() || room_for_more_keys {", "                if room_for_more_keys {")]
MAIN = r'''
use futures_lite::StreamExt;
use hyperbee::{traverse::TraverseConfig, Hyperbee};
use std::collections::BTreeMap;

async fn entries(hb: &Hyperbee) -> Vec<(Vec<u8>, Option<Vec<u8>>)> {
    let s = hb.traverse(TraverseConfig::default()).await.unwrap();
    tokio::pin!(s);
    let mut out = vec![];
    while let Some(x) = s.next().await {
        let x = x.unwrap();
        out.push((x.key, x.value));
    }
    out
}

async fn run() {
    for n in 1..30u8 {
        for again in 0..n {
            let hb = Hyperbee::from_ram().await.unwrap();
            let mut model = BTreeMap::new();
            for i in (0..n).chain([again]) {
                let v = vec![i, model.len() as u8];
                hb.put(&[i], Some(&v)).await.unwrap();
                model.insert(vec![i], Some(v));
            }
            assert_eq!(entries(&hb).await, model.clone().into_iter().collect::<Vec<_>>(), "{n} keys, {again} put again");
            hb.del(&[again]).await.unwrap();
            assert_eq!(hb.get(&[again]).await.unwrap(), None, "{n} keys, {again} put again and deleted");
        }
    }
}

fn main() {
    std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(run());
    }).unwrap().join().unwrap();
}
'''
