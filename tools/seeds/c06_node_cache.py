ID = "c06-node-cache"; PROPERTY = "C06"
NEEDS = "a traversal in progress (or a write that fails part-way) and a put below a node it has not yet entered"
BREAKS = "nodes below the root are kept in memory by position and handed to writers, which change them in place, so an open traversal sees later writes"
EDITS = [("src/blocks.rs", """    cache: Shared<BTreeMap<u64, Shared<BlockEntry>>>,
    #[builder(setter(custom))]
""", """    cache: Shared<BTreeMap<u64, Shared<BlockEntry>>>,
    #[builder(default)]
    /// nodes that were needed recently, so that a descent does not have to build them again
    pub(crate) nodes: Shared<BTreeMap<(u64, u64), SharedNode>>,
    #[builder(setter(custom))]
"""), ("src/lib.rs", """        let block = self
            .blocks
            .read()
            .await
            .get(&seq, self.blocks.clone())
            .await?;
        let node = block.read().await.get_tree_node(offset)?;
        Ok(node)
""", """        let nodes = self.blocks.read().await.nodes.clone();
        if let Some(node) = nodes.read().await.get(&(seq, offset)).cloned() {
            return Ok(node);
        }
        let block = self
            .blocks
            .read()
            .await
            .get(&seq, self.blocks.clone())
            .await?;
        let node = block.read().await.get_tree_node(offset)?;
        nodes.write().await.insert((seq, offset), node.clone());
        Ok(node)
""")]
MAIN = r'''
use futures_lite::StreamExt;
use hyperbee::{traverse::TraverseConfig, Hyperbee};
fn main() {
    std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(async {
        let hb = Hyperbee::from_ram().await.unwrap();
        for i in 0..60u8 { hb.put(&[i], None).await.unwrap(); }
        let mut seen = vec![];
        let stream = hb.traverse(TraverseConfig::default()).await.unwrap();
        tokio::pin!(stream);
        for _ in 0..3 { seen.push(stream.next().await.unwrap().unwrap().key); }
        for i in 20..60u8 { hb.put(&[i, 1], None).await.unwrap(); }
        while let Some(x) = stream.next().await { seen.push(x.unwrap().key); }
        assert_eq!(seen, (0..60u8).map(|i| vec![i]).collect::<Vec<_>>());
    });
    }).unwrap().join().unwrap();
}
'''
