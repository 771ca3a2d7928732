ID = "c22-cache-slots"; PROPERTY = "C22"
NEEDS = "a log longer than the number of cache slots, and a read that needs an old block whose slot a newer one has taken"
BREAKS = "a block kept in memory is served for another index than the one it was read from"
EDITS = [("src/blocks.rs", """        self.cache.read().await.get(seq).cloned()
""", """        // bounded: one slot per remainder
        self.cache.read().await.get(&(*seq % 256)).cloned()
"""), ("src/blocks.rs", """            self.cache.write().await.insert(*seq, block_entry.clone());
""", """            self.cache.write().await.insert(*seq % 256, block_entry.clone());
""")]
MAIN = r'''
use hyperbee::Hyperbee;
fn main() {
    std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(async {
        let hb = Hyperbee::from_ram().await.unwrap();
        for i in 0..600u64 { hb.put(format!("{i:04}").as_bytes(), Some(&i.to_le_bytes())).await.unwrap(); }
        for i in 0..600u64 {
            assert_eq!(hb.get(format!("{i:04}").as_bytes()).await.unwrap(), Some((i + 1, Some(i.to_le_bytes().to_vec()))));
        }
    });
    }).unwrap().join().unwrap();
}
'''
