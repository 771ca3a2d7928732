ID = "c18-sibling"; PROPERTY = "C18"
NEEDS = "a delete that leaves a leaf deficient whose left sibling lies in a block that cannot be decoded, while the right sibling has a key to spare"
BREAKS = "the failure to read the left sibling is taken for 'cannot rotate'; the delete succeeds by rotating from the right"
EDITS = [("src/del.rs", """        let donor_child = father.read().await.get_child(donor_index).await?;
        let can_rotate =""", """        // a sibling that is not there cannot donate
        let Ok(donor_child) = father.read().await.get_child(donor_index).await else {
            return Ok(None);
        };
        let can_rotate =""")]
MAIN = r'''
use hyperbee::Hyperbee;
fn main() {
    let dir = std::env::temp_dir().join(format!("c18-{}", std::process::id()));
    let key = |i: u64| format!("{i:02}").into_bytes();
    let res = tokio::runtime::Runtime::new().unwrap().block_on(async {
        {
            let hb = Hyperbee::from_storage_dir(&dir).await.unwrap();
            for i in 1..=15 { hb.put(&key(i), Some(b"v")).await.unwrap(); }
        }
        // block 9 holds the leaf with the first four keys (and key 9)
        let f = dir.join("blocks");
        let mut d = std::fs::read(&f).unwrap();
        let (mut p, mut n) = (0, 0);
        loop {
            let l = u64::from_le_bytes(d[p..p + 8].try_into().unwrap()) as usize;
            p += 8;
            if n == 9 { for b in &mut d[p..p + l] { *b = 0xff; } break; }
            p += l;
            n += 1;
        }
        std::fs::write(&f, d).unwrap();
        let hb = Hyperbee::from_storage_dir(&dir).await.unwrap();
        assert!(hb.get(&key(6)).await.is_ok());
        assert!(hb.get(&key(1)).await.is_err());
        hb.del(&key(7)).await
    });
    std::fs::remove_dir_all(dir).unwrap();
    assert!(res.is_err(), "{res:?}");
}
'''
