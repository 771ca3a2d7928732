ID = "c15-empty-prefix"; PROPERTY = "C15"
NEEDS = "a sub-tree made with an empty prefix and a separator that is not empty"
BREAKS = "its keys are stored without the separator, so they collide with the keys of the main tree (and are not in the range its traversal covers)"
EDITS = [("src/prefixed.rs", """        &[&$self.prefix, &$self.conf.seperator, $key].concat()
""", """        &if $self.prefix.is_empty() {
            // nothing to separate
            $key.to_vec()
        } else {
            [&$self.prefix, &$self.conf.seperator, $key].concat()
        }[..]
""")]
MAIN = r'''
use hyperbee::{prefixed::PrefixedConfig, Hyperbee};
fn main() {
    tokio::runtime::Runtime::new().unwrap().block_on(async {
        let hb = Hyperbee::from_ram().await.unwrap();
        hb.put(b"k", Some(b"main")).await.unwrap();
        let sub = hb.sub(b"", PrefixedConfig::default());
        sub.put(b"k", Some(b"sub")).await.unwrap();
        assert_eq!(hb.get(b"k").await.unwrap().unwrap().1.unwrap(), b"main");
        assert_eq!(hb.get(b"\0k").await.unwrap().unwrap().1.unwrap(), b"sub");
        assert_eq!(sub.get(b"k").await.unwrap().unwrap().1.unwrap(), b"sub");
        let sub = hb.sub(b"p", PrefixedConfig::default());
        sub.put(b"k", Some(b"p")).await.unwrap();
        assert_eq!(hb.get(b"p\0k").await.unwrap().unwrap().1.unwrap(), b"p");
    });
}
'''
