ID = "c12-child-bound"; PROPERTY = "C12"
NEEDS = "a traversal with an excluded upper bound which is the key of an entry in a node below the root"
BREAKS = "children are traversed with an inclusive upper bound, so the excluded upper key is yielded when a child holds it"
EDITS = [("src/traverse.rs", """                    self.next_child = Some(Box::pin(get_child_stream(
                        self.root.clone(),
                        index >> 1,
                        self.config.clone(),
                    )));
""", """                    // the upper key itself is filtered out here, where it is known to be excluded
                    let config = TraverseConfig {
                        max_inclusive: true,
                        ..self.config.clone()
                    };
                    self.next_child = Some(Box::pin(get_child_stream(
                        self.root.clone(),
                        index >> 1,
                        config,
                    )));
""")]
MAIN = r'''
use hyperbee::{traverse::{LimitValue, TraverseConfig}, Hyperbee};
use futures_lite::StreamExt;
fn main() {
    std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(async {
        let hb = Hyperbee::from_ram().await.unwrap();
        for i in 0..40u8 { hb.put(&[i], Some(&[i])).await.unwrap(); }
        for max in 0..40u8 {
            let conf = TraverseConfig { max_value: LimitValue::Finite(vec![max]), max_inclusive: false, ..Default::default() };
            let stream = hb.traverse(conf).await.unwrap();
            tokio::pin!(stream);
            let mut keys = vec![];
            while let Some(kv) = stream.next().await { keys.push(kv.unwrap().key); }
            assert_eq!(keys, (0..max).map(|i| vec![i]).collect::<Vec<_>>());
        }
    });
    }).unwrap().join().unwrap();
}
'''
