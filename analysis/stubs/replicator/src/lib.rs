//! Type-level stand-in for the `replicator` git dependency (not available offline), see
//! ../../hypercore.  Replication itself is not modelled: `add_stream` only drops the stream.
use futures_lite::{AsyncRead, AsyncWrite};
use hypercore::{
    replication::{CoreInfo, CoreMethods, CoreMethodsError, SharedCore},
    AppendOutcome, Hypercore, Info, PartialKeypair,
};

#[derive(thiserror::Error, Debug)]
#[non_exhaustive]
pub enum ReplicatorError {
    #[error("There was an error in the opening Hypercore in [`ReplicatorBuilder::build`]: {0}")]
    BuilderError(String),
    #[error("There was an error in the underlying Hypercore: {0}")]
    HypercoreError(#[from] hypercore::HypercoreError),
    #[error("IO Error: {0}")]
    IOError(#[from] std::io::Error),
}

#[derive(Debug, Clone)]
pub struct ReplicatingCore {
    core: SharedCore,
}

impl ReplicatingCore {
    pub async fn add_stream<S: AsyncRead + AsyncWrite + Send + Sync + Unpin + 'static>(
        &self,
        _stream: S,
        _is_initiator: bool,
    ) {
    }
}
impl From<SharedCore> for ReplicatingCore {
    fn from(core: SharedCore) -> Self {
        Self { core }
    }
}
impl From<Hypercore> for ReplicatingCore {
    fn from(core: Hypercore) -> Self {
        Self {
            core: SharedCore::from_hypercore(core),
        }
    }
}
impl CoreInfo for ReplicatingCore {
    async fn info(&self) -> Info {
        self.core.info().await
    }
    async fn key_pair(&self) -> PartialKeypair {
        self.core.key_pair().await
    }
}
impl CoreMethods for ReplicatingCore {
    async fn has(&self, index: u64) -> bool {
        self.core.has(index).await
    }
    async fn get(&self, index: u64) -> Result<Option<Vec<u8>>, CoreMethodsError> {
        self.core.get(index).await
    }
    async fn append(&self, data: &[u8]) -> Result<AppendOutcome, CoreMethodsError> {
        self.core.append(data).await
    }
    async fn append_batch<A: AsRef<[u8]> + Send, B: AsRef<[A]> + Send>(
        &self,
        batch: B,
    ) -> Result<AppendOutcome, CoreMethodsError> {
        self.core.append_batch(batch).await
    }
}

#[cfg(feature = "utils")]
pub mod utils {
    //! writer and reader share one log: replication is instantaneous
    use super::*;
    use std::{
        pin::Pin,
        task::{Context, Poll},
    };
    pub struct NoStream;
    impl AsyncRead for NoStream {
        fn poll_read(
            self: Pin<&mut Self>,
            _: &mut Context<'_>,
            _: &mut [u8],
        ) -> Poll<std::io::Result<usize>> {
            Poll::Pending
        }
    }
    impl AsyncWrite for NoStream {
        fn poll_write(
            self: Pin<&mut Self>,
            _: &mut Context<'_>,
            b: &[u8],
        ) -> Poll<std::io::Result<usize>> {
            Poll::Ready(Ok(b.len()))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
            Poll::Ready(Ok(()))
        }
    }
    pub fn create_connected_streams() -> (NoStream, NoStream) {
        (NoStream, NoStream)
    }
    pub async fn writer_and_reader_cores(
    ) -> Result<(SharedCore, SharedCore), Box<dyn std::error::Error>> {
        let core: SharedCore =
            hypercore::HypercoreBuilder::new(hypercore::Storage::new_memory().await?)
                .build()
                .await?
                .into();
        Ok((core.clone(), core))
    }
}
