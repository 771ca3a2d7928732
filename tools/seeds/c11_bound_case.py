ID = "c11-bound-case"; PROPERTY = "C11"
NEEDS = "a traversal whose bound meets, on the way down, a key that differs from it only in the case of its letters"
BREAKS = "a bound is taken to equal a key that differs from it in letter case, so the search stops on the wrong side"
EDITS = [("src/traverse.rs", """            Finite(vec) => vec.eq(other),
""", """            Finite(vec) => vec.eq_ignore_ascii_case(other),
""")]
MAIN = r'''
use hyperbee::{traverse::{LimitValue, TraverseConfig}, Hyperbee};
use futures_lite::StreamExt;
fn main() {
    std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(async {
        let hb = Hyperbee::from_ram().await.unwrap();
        for k in ["A", "B", "b"] { hb.put(k.as_bytes(), Some(b"x")).await.unwrap(); }
        let conf = TraverseConfig { min_value: LimitValue::Finite(b"b".to_vec()), ..Default::default() };
        let stream = hb.traverse(conf).await.unwrap();
        tokio::pin!(stream);
        let mut keys = vec![];
        while let Some(kv) = stream.next().await { keys.push(kv.unwrap().key); }
        assert_eq!(keys, vec![b"b".to_vec()]);
    });
    }).unwrap().join().unwrap();
}
'''
