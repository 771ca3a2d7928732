ID = "c14-failed-key"; PROPERTY = "C14"
NEEDS = "a stored block of an entry that cannot be read, met during a traversal that goes on after the error"
BREAKS = "the future of a key that failed is kept and polled again after its completion, so the traversal panics after the error"
EDITS = [("src/traverse.rs", """                    self.next_key = None;
                    return Poll::Ready(Some((out, self.root.clone())));
""", """                    if out.is_ok() {
                        self.next_key = None;
                    }
                    return Poll::Ready(Some((out, self.root.clone())));
""")]
MAIN = r'''
use hyperbee::{traverse::TraverseConfig, Hyperbee};
use futures_lite::StreamExt;
fn main() {
    let dir = std::env::current_dir().unwrap().join("demo-storage");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let at = dir.clone();
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(async {
        {
            let hb = Hyperbee::from_storage_dir(&at).await.unwrap();
            for k in ["c", "b", "a"] { hb.put(k.as_bytes(), Some(b"x")).await.unwrap(); }
        }
        // spoil the block that holds "c"
        let f = at.join("blocks");
        let mut blocks = std::fs::read(&f).unwrap();
        let mut i = 0;
        for n in 0..2 {
            let len = u64::from_le_bytes(blocks[i..i + 8].try_into().unwrap()) as usize;
            if n == 1 { blocks[i + 8..i + 8 + len].fill(0xff); }
            i += 8 + len;
        }
        std::fs::write(&f, blocks).unwrap();
        let hb = Hyperbee::from_storage_dir(&at).await.unwrap();
        let stream = hb.traverse(TraverseConfig::default()).await.unwrap();
        tokio::pin!(stream);
        let mut errors = 0;
        let mut keys = vec![];
        while let Some(kv) = stream.next().await {
            match kv { Ok(kv) => keys.push(kv.key), Err(_) => errors += 1 }
            assert!(errors < 5);
        }
        assert_eq!(errors, 1);
        assert_eq!(keys, vec![b"a".to_vec(), b"b".to_vec()]);
    });
    }).unwrap().join().unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
}
'''
