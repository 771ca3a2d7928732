//! Type-level stand-in for the `hypercore` crate (0.14), which is not available offline.
//!
//! It declares the part of hypercore's public API that an append-only block log offers, with the
//! signatures of the real crate, so that /repo's sources can be name-resolved and type-checked.
//! The static checks only ever *type-check* against it.  It is also functional (an in-memory log,
//! or one file per storage directory), so that demonstrations of planted bugs can be executed.
use std::{
    fmt::Debug,
    fs,
    io::Write,
    path::PathBuf,
    sync::{
        atomic::{AtomicI64, Ordering},
        Arc,
    },
};

use thiserror::Error;

#[derive(Error, Debug)]
pub enum HypercoreError {
    #[error("Bad argument. {context}")]
    BadArgument { context: String },
    #[error("Hypercore is not writable")]
    NotWritable,
    #[error("Invalid operation. {context}")]
    InvalidOperation { context: String },
    #[error("Given storage does not contain valid data. {context}")]
    EmptyStorage { context: String },
    #[error("Unrecoverable input/output error occured.")]
    IO {
        context: Option<String>,
        #[source]
        source: std::io::Error,
    },
}

impl From<std::io::Error> for HypercoreError {
    fn from(source: std::io::Error) -> Self {
        Self::IO {
            context: None,
            source,
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct AppendOutcome {
    pub length: u64,
    pub byte_length: u64,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Info {
    pub length: u64,
    pub byte_length: u64,
    pub contiguous_length: u64,
    pub fork: u64,
    pub writeable: bool,
}

#[derive(Debug, Clone)]
pub struct PartialKeypair {
    pub public: [u8; 32],
    pub secret: Option<[u8; 32]>,
}

#[derive(Debug)]
pub struct Storage {
    dir: Option<PathBuf>,
}

impl Storage {
    pub async fn new_memory() -> Result<Self, HypercoreError> {
        Ok(Self { dir: None })
    }
    pub async fn new_disk(dir: &PathBuf, overwrite: bool) -> Result<Self, HypercoreError> {
        fs::create_dir_all(dir)?;
        if overwrite {
            let _ = fs::remove_file(dir.join("blocks"));
        }
        Ok(Self {
            dir: Some(dir.clone()),
        })
    }
}

#[derive(Debug)]
pub struct HypercoreBuilder {
    storage: Storage,
    open: bool,
}

impl HypercoreBuilder {
    pub fn new(storage: Storage) -> Self {
        Self {
            storage,
            open: false,
        }
    }
    pub fn key_pair(self, _key_pair: PartialKeypair) -> Self {
        self
    }
    pub fn open(mut self, open: bool) -> Self {
        self.open = open;
        self
    }
    pub async fn build(self) -> Result<Hypercore, HypercoreError> {
        let mut blocks = vec![];
        if let Some(dir) = &self.storage.dir {
            if let Ok(data) = fs::read(dir.join("blocks")) {
                let mut i = 0;
                while i + 8 <= data.len() {
                    let n = u64::from_le_bytes(data[i..i + 8].try_into().unwrap()) as usize;
                    i += 8;
                    blocks.push(data[i..i + n].to_vec());
                    i += n;
                }
            }
        }
        Ok(Hypercore {
            blocks,
            dir: self.storage.dir,
        })
    }
}

#[derive(Debug)]
pub struct Hypercore {
    blocks: Vec<Vec<u8>>,
    dir: Option<PathBuf>,
}

impl Hypercore {
    pub fn info(&self) -> Info {
        Info {
            length: self.blocks.len() as u64,
            byte_length: self.blocks.iter().map(|b| b.len() as u64).sum(),
            contiguous_length: self.blocks.len() as u64,
            fork: 0,
            writeable: true,
        }
    }
    pub fn has(&self, index: u64) -> bool {
        index < self.blocks.len() as u64
    }
    pub async fn get(&mut self, index: u64) -> Result<Option<Vec<u8>>, HypercoreError> {
        Ok(self.blocks.get(index as usize).cloned())
    }
    pub async fn append(&mut self, data: &[u8]) -> Result<AppendOutcome, HypercoreError> {
        if let Some(dir) = &self.dir {
            let mut f = fs::OpenOptions::new()
                .create(true)
                .append(true)
                .open(dir.join("blocks"))?;
            f.write_all(&(data.len() as u64).to_le_bytes())?;
            f.write_all(data)?;
        }
        self.blocks.push(data.to_vec());
        let info = self.info();
        Ok(AppendOutcome {
            length: info.length,
            byte_length: info.byte_length,
        })
    }
    pub async fn append_batch<A: AsRef<[u8]>, B: AsRef<[A]>>(
        &mut self,
        batch: B,
    ) -> Result<AppendOutcome, HypercoreError> {
        for data in batch.as_ref() {
            self.append(data.as_ref()).await?;
        }
        let info = self.info();
        Ok(AppendOutcome {
            length: info.length,
            byte_length: info.byte_length,
        })
    }
    pub async fn clear(&mut self, _start: u64, _end: u64) -> Result<(), HypercoreError> {
        Ok(())
    }
    pub fn key_pair(&self) -> PartialKeypair {
        PartialKeypair {
            public: [0; 32],
            secret: None,
        }
    }
}

/// Knobs used by demonstrations (not part of the real API).
#[derive(Debug)]
pub struct Faults {
    /// number of operations that still succeed; negative: never fail
    pub appends_left: AtomicI64,
    pub gets_left: AtomicI64,
    /// counters
    pub n_appends: AtomicI64,
    pub n_gets: AtomicI64,
}

impl Default for Faults {
    fn default() -> Self {
        Self {
            appends_left: AtomicI64::new(-1),
            gets_left: AtomicI64::new(-1),
            n_appends: AtomicI64::new(0),
            n_gets: AtomicI64::new(0),
        }
    }
}

impl Faults {
    pub fn tick(c: &AtomicI64) -> bool {
        let v = c.load(Ordering::SeqCst);
        if v == 0 {
            return true;
        }
        if v > 0 {
            c.store(v - 1, Ordering::SeqCst);
        }
        false
    }
}

pub mod replication {
    use super::*;
    use std::future::Future;
    use tokio::sync::Mutex;

    #[derive(Error, Debug)]
    pub enum CoreMethodsError {
        #[error("Got a hypercore error: [{0}]")]
        HypercoreError(#[from] HypercoreError),
    }

    pub trait CoreInfo: Debug + Send + Sync {
        fn info(&self) -> impl Future<Output = Info> + Send;
        fn key_pair(&self) -> impl Future<Output = PartialKeypair> + Send;
    }

    pub trait CoreMethods: CoreInfo {
        fn has(&self, index: u64) -> impl Future<Output = bool> + Send;
        fn get(
            &self,
            index: u64,
        ) -> impl Future<Output = Result<Option<Vec<u8>>, CoreMethodsError>> + Send;
        fn append(
            &self,
            data: &[u8],
        ) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send;
        fn append_batch<A: AsRef<[u8]> + Send, B: AsRef<[A]> + Send>(
            &self,
            batch: B,
        ) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send;
    }

    #[derive(Debug, Clone)]
    pub struct SharedCore(pub Arc<Mutex<Hypercore>>, pub Arc<Faults>);

    impl SharedCore {
        pub fn from_hypercore(core: Hypercore) -> Self {
            Self(Arc::new(Mutex::new(core)), Default::default())
        }
    }
    impl From<Hypercore> for SharedCore {
        fn from(core: Hypercore) -> Self {
            Self::from_hypercore(core)
        }
    }
    fn io(what: &str) -> CoreMethodsError {
        HypercoreError::IO {
            context: None,
            source: std::io::Error::new(std::io::ErrorKind::Other, what.to_string()),
        }
        .into()
    }
    impl CoreInfo for SharedCore {
        async fn info(&self) -> Info {
            tokio::task::yield_now().await;
            self.0.lock().await.info()
        }
        async fn key_pair(&self) -> PartialKeypair {
            self.0.lock().await.key_pair()
        }
    }
    impl CoreMethods for SharedCore {
        async fn has(&self, index: u64) -> bool {
            self.0.lock().await.has(index)
        }
        async fn get(&self, index: u64) -> Result<Option<Vec<u8>>, CoreMethodsError> {
            tokio::task::yield_now().await;
            self.1.n_gets.fetch_add(1, Ordering::SeqCst);
            if Faults::tick(&self.1.gets_left) {
                return Err(io("injected read fault"));
            }
            Ok(self.0.lock().await.get(index).await?)
        }
        async fn append(&self, data: &[u8]) -> Result<AppendOutcome, CoreMethodsError> {
            tokio::task::yield_now().await;
            if Faults::tick(&self.1.appends_left) {
                return Err(io("injected append fault"));
            }
            self.1.n_appends.fetch_add(1, Ordering::SeqCst);
            Ok(self.0.lock().await.append(data).await?)
        }
        async fn append_batch<A: AsRef<[u8]> + Send, B: AsRef<[A]> + Send>(
            &self,
            batch: B,
        ) -> Result<AppendOutcome, CoreMethodsError> {
            let all: Vec<Vec<u8>> = batch.as_ref().iter().map(|x| x.as_ref().to_vec()).collect();
            drop(batch);
            Ok(self.0.lock().await.append_batch(all).await?)
        }
    }
}
