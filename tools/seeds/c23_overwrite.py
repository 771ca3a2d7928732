ID = "c23-overwrite"; PROPERTY = "C23"
NEEDS = "a storage directory that holds a log but not (yet) the file the opening looks for, as after a partial copy or an interrupted first start"
BREAKS = "opening such a directory overwrites the log in it"
EDITS = [("src/tree.rs", """        let storage = Storage::new_disk(&p, false).await?;
""", """        // nothing to keep when the log has never been created
        let fresh = !p.join("oplog").exists();
        let storage = Storage::new_disk(&p, fresh).await?;
""")]
MAIN = r'''
use hyperbee::Hyperbee;
fn main() {
    let dir = std::env::temp_dir().join(format!("c23-{}", std::process::id()));
    tokio::runtime::Runtime::new().unwrap().block_on(async {
        for i in 0..3u8 {
            let hb = Hyperbee::from_storage_dir(&dir).await.unwrap();
            assert_eq!(hb.version().await, if i == 0 { 0 } else { i as u64 + 1 });
            for j in 0..i { assert_eq!(hb.get(&[j]).await.unwrap(), Some((j as u64 + 1, Some(vec![j])))); }
            hb.put(&[i], Some(&[i])).await.unwrap();
        }
    });
    std::fs::remove_dir_all(dir).unwrap();
}
'''
