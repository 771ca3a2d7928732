ID = "c07-split-number"; PROPERTY = "C07"
NEEDS = "a put that creates a new root (the first one, or one that splits the old root)"
BREAKS = "such a put reports the length of the log after its block instead of the index of its block"
EDITS = [("src/put.rs", """        changes.add_node(new_root);
        let _ = self.blocks.read().await.add_changes(changes).await?;

        Ok((matched, Some(seq)))
""", """        changes.add_node(new_root);
        let appended = self.blocks.read().await.add_changes(changes).await?;

        Ok((matched, Some(appended.length)))
""")]
MAIN = r'''
use hyperbee::Hyperbee;
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let hb = Hyperbee::from_ram().await.unwrap();
    for i in 0..40u8 {
        let before = hb.version().await.max(1);
        let (old, seq) = hb.put(&[i], Some(&[i])).await.unwrap();
        assert_eq!(old, None);
        assert_eq!(seq, before, "put of {i}");
        assert_eq!(hb.get(&[i]).await.unwrap(), Some((seq, Some(vec![i]))));
    }
}
'''
