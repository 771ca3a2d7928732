ID = "c17-lost-value"; PROPERTY = "C17"
NEEDS = "an entry with a present but empty value that is read back from its block"
BREAKS = "a present but empty value is stored but read back as no value"
EDITS = [("src/blocks.rs", "            value: entry.value,\n", "            value: entry.value.filter(|value| !value.is_empty()),\n")]
MAIN = r'''
use hyperbee::Hyperbee;
fn main() {
    tokio::runtime::Runtime::new().unwrap().block_on(async {
        let hb = Hyperbee::from_ram().await.unwrap();
        hb.put(b"a", Some(b"x")).await.unwrap();
        hb.put(b"b", None).await.unwrap();
        hb.put(b"c", Some(b"")).await.unwrap();
        let sub = hb.sub(b"s", Default::default());
        sub.put(b"c", Some(b"")).await.unwrap();
        assert_eq!(hb.get(b"a").await.unwrap().unwrap().1, Some(b"x".to_vec()));
        assert_eq!(hb.get(b"b").await.unwrap().unwrap().1, None);
        assert_eq!(hb.get(b"c").await.unwrap().unwrap().1, Some(vec![]));
        assert_eq!(sub.get(b"c").await.unwrap().unwrap().1, Some(vec![]));
    });
}
'''
