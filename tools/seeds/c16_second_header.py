ID = "c16-second-header"; PROPERTY = "C16"
NEEDS = "create_header is called on a log that holds only the header"
BREAKS = "a second header is appended as block 1, where the tree then looks for its root"
EDITS = [("src/tree.rs", "if self.blocks.read().await.info().await.length != 0 {", "if self.version().await > 1 {")]
MAIN = r'''
use hyperbee::Hyperbee;
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let hb = Hyperbee::from_ram().await.unwrap();
    hb.create_header(None).await.unwrap();
    assert!(hb.create_header(None).await.is_err());
    assert_eq!(hb.version().await, 1);
}
'''
