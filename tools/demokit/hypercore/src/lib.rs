//! Stand-in for hypercore: an append-only list of blocks in memory, with faults set by the demo.
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::{Arc, Mutex};

#[derive(thiserror::Error, Debug)]
#[non_exhaustive]
pub enum HypercoreError {
    #[error("Not writable")]
    NotWritable,
    #[error("Unrecoverable input/output error")]
    IO {
        context: Option<String>,
        #[source]
        source: std::io::Error,
    },
}
fn io() -> HypercoreError {
    HypercoreError::IO { context: None, source: std::io::Error::new(std::io::ErrorKind::Other, "injected") }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct AppendOutcome {
    pub length: u64,
    pub byte_length: u64,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Info {
    pub length: u64,
    pub byte_length: u64,
    pub contiguous_length: u64,
    pub fork: u64,
    pub writeable: bool,
}
/// What the demo controls.
#[derive(Debug, Default)]
pub struct Disk {
    pub blocks: Vec<Option<Vec<u8>>>,
    pub readonly: bool,
    /// reads of these blocks fail
    pub bad: std::collections::BTreeSet<u64>,
    /// the n-th read from now fails (1 = next)
    pub fail_get_in: u64,
    /// the n-th append from now fails, before / after the block is stored
    pub fail_append_in: u64,
    pub fail_after: bool,
    /// this many attempts to open fail first
    pub fail_opens: u32,
    /// how often a read / append lets other tasks run first
    pub get_yields: u32,
    pub append_yields: u32,
    pub gets: u64,
    pub appends: u64,
}
pub type SharedDisk = Arc<Mutex<Disk>>;
static DISKS: Mutex<BTreeMap<String, SharedDisk>> = Mutex::new(BTreeMap::new());
/// The simulated disk behind a storage directory.
pub fn disk(path: &str) -> SharedDisk {
    DISKS.lock().unwrap().entry(path.to_string()).or_default().clone()
}
#[derive(Debug)]
pub struct Storage(SharedDisk);
impl Storage {
    pub async fn new_memory() -> Result<Self, HypercoreError> {
        Ok(Storage(Default::default()))
    }
    pub async fn new_disk(dir: &Path, overwrite: bool) -> Result<Self, HypercoreError> {
        let p = dir.to_string_lossy().to_string();
        if p.contains("unopenable") {
            return Err(io());
        }
        let d = disk(&p);
        {
            let mut d = d.lock().unwrap();
            if d.fail_opens > 0 {
                d.fail_opens -= 1;
                return Err(io());
            }
        }
        if overwrite {
            d.lock().unwrap().blocks.clear();
        }
        Ok(Storage(d))
    }
}
pub struct HypercoreBuilder(Storage);
impl HypercoreBuilder {
    pub fn new(s: Storage) -> Self {
        Self(s)
    }
    pub fn open(self, _: bool) -> Self {
        self
    }
    pub async fn build(self) -> Result<Hypercore, HypercoreError> {
        Ok(Hypercore(self.0 .0))
    }
}
#[derive(Debug)]
pub struct Hypercore(pub SharedDisk);
impl Hypercore {
    pub fn on(d: SharedDisk) -> Self {
        Hypercore(d)
    }
    pub fn info(&self) -> Info {
        info(&self.0)
    }
}
fn info(d: &SharedDisk) -> Info {
    let d = d.lock().unwrap();
    Info {
        length: d.blocks.len() as u64,
        byte_length: 0,
        contiguous_length: d.blocks.iter().take_while(|b| b.is_some()).count() as u64,
        fork: 0,
        writeable: !d.readonly,
    }
}
async fn yields(n: u32) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}
pub mod replication {
    use super::*;
    use std::future::Future;
    #[derive(thiserror::Error, Debug)]
    #[non_exhaustive]
    pub enum CoreMethodsError {
        #[error("Got a hypercore error: [{0}]")]
        HypercoreError(#[from] HypercoreError),
    }
    pub trait CoreInfo {
        fn info(&self) -> impl Future<Output = Info> + Send;
    }
    pub trait CoreMethods: CoreInfo {
        fn has(&self, index: u64) -> impl Future<Output = bool> + Send;
        fn get(&self, index: u64) -> impl Future<Output = Result<Option<Vec<u8>>, CoreMethodsError>> + Send;
        fn append(&self, data: &[u8]) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send;
    }
    #[derive(Clone, Debug)]
    pub struct SharedCore(pub SharedDisk);
    impl SharedCore {
        pub fn from_hypercore(h: Hypercore) -> Self {
            SharedCore(h.0)
        }
    }
    impl From<Hypercore> for SharedCore {
        fn from(h: Hypercore) -> Self {
            SharedCore(h.0)
        }
    }
    impl CoreInfo for SharedCore {
        async fn info(&self) -> Info {
            info(&self.0)
        }
    }
    impl CoreMethods for SharedCore {
        async fn has(&self, index: u64) -> bool {
            self.0.lock().unwrap().blocks.get(index as usize).map_or(false, |b| b.is_some())
        }
        async fn get(&self, index: u64) -> Result<Option<Vec<u8>>, CoreMethodsError> {
            let n = self.0.lock().unwrap().get_yields;
            yields(n).await;
            let mut d = self.0.lock().unwrap();
            d.gets += 1;
            if d.fail_get_in > 0 {
                d.fail_get_in -= 1;
                if d.fail_get_in == 0 {
                    return Err(io().into());
                }
            }
            if d.bad.contains(&index) {
                return Err(io().into());
            }
            Ok(d.blocks.get(index as usize).cloned().flatten())
        }
        async fn append(&self, data: &[u8]) -> Result<AppendOutcome, CoreMethodsError> {
            let n = self.0.lock().unwrap().append_yields;
            yields(n).await;
            let (fail, length) = {
                let mut d = self.0.lock().unwrap();
                if d.readonly {
                    return Err(HypercoreError::NotWritable.into());
                }
                let mut fail = false;
                if d.fail_append_in > 0 {
                    d.fail_append_in -= 1;
                    fail = d.fail_append_in == 0;
                }
                if fail && !d.fail_after {
                    return Err(io().into());
                }
                d.blocks.push(Some(data.to_vec()));
                d.appends += 1;
                (fail, d.blocks.len() as u64)
            };
            yields(n).await;
            if fail {
                return Err(io().into());
            }
            Ok(AppendOutcome { length, byte_length: 0 })
        }
    }
}
