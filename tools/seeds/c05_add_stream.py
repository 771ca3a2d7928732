ID = "c05-add-stream"; PROPERTY = "C05"
NEEDS = "add_stream is called while a read of the tree is between its two acquisitions of the blocks lock"
BREAKS = "add_stream waits for the blocks lock exclusively; the read takes that lock again while holding it and queues behind the waiting writer: both hang"
EDITS = [("src/tree.rs", """        self.blocks
            .read()
            .await
            .add_stream(stream, is_initiator)
            .await
""", """        let blocks = self.blocks.write().await;
        blocks.add_stream(stream, is_initiator).await
""")]
MAIN = r'''
use futures_lite::{AsyncRead, AsyncWrite};
use hyperbee::Hyperbee;
use std::{pin::Pin, task::{Context, Poll}, time::Duration};
struct S;
impl AsyncRead for S {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: &mut [u8]) -> Poll<std::io::Result<usize>> { Poll::Pending }
}
impl AsyncWrite for S {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> { Poll::Ready(Ok(b.len())) }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
}
fn main() {
    std::thread::spawn(|| { std::thread::sleep(Duration::from_secs(30)); eprintln!("the calls wait for each other"); std::process::exit(1) });
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(6).enable_all().build().unwrap();
    rt.block_on(async {
        let hb = std::sync::Arc::new(Hyperbee::from_ram().await.unwrap());
        hb.put(b"k", None).await.unwrap();
        let end = std::time::Instant::now() + Duration::from_secs(8);
        let mut all = vec![];
        for i in 0..6 {
            let hb = hb.clone();
            all.push(tokio::spawn(async move {
                while std::time::Instant::now() < end {
                    if i % 2 == 0 { hb.get(b"k").await.unwrap(); } else { hb.add_stream(S, true).await.unwrap(); }
                }
            }));
        }
        for t in all { t.await.unwrap(); }
    });
}
'''
