ID = "c21-empty-value"; PROPERTY = "C21"
NEEDS = "a get through the main handle of an entry whose value is present but empty"
BREAKS = "the empty value is returned as no value by the main handle, although the tree stores and returns it"
EDITS = [("src/hb.rs", """        self.tree.read().await.get(key).await
""", """        let found = self.tree.read().await.get(key).await?;
        Ok(found.map(|(seq, value)| (seq, value.filter(|bytes| !bytes.is_empty()))))
""")]
MAIN = r'''
use hyperbee::Hyperbee;
fn main() {
    tokio::runtime::Runtime::new().unwrap().block_on(async {
        let hb = Hyperbee::from_ram().await.unwrap();
        hb.put(b"a", Some(b"x")).await.unwrap();
        hb.put(b"b", None).await.unwrap();
        hb.put(b"c", Some(b"")).await.unwrap();
        assert_eq!(hb.get(b"a").await.unwrap().unwrap().1, Some(b"x".to_vec()));
        assert_eq!(hb.get(b"b").await.unwrap().unwrap().1, None);
        assert_eq!(hb.get(b"c").await.unwrap().unwrap().1, Some(vec![]));
    });
}
'''
