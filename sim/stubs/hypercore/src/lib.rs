//! Simulated `hypercore`: an append-only log of blocks on a simulated disk, with delays, errors
//! and crashes drawn from the simulator.
use std::path::Path;
use std::sync::{Arc, Mutex};

pub mod sim;
use sim::{Disk, Fault};

#[derive(thiserror::Error, Debug)]
#[non_exhaustive]
pub enum HypercoreError {
    #[error("Bad argument. {context}")]
    BadArgument { context: String },
    #[error("Not writable")]
    NotWritable,
    #[error("Invalid signature. {context}")]
    InvalidSignature { context: String },
    #[error("Invalid checksum. {context}")]
    InvalidChecksum { context: String },
    #[error("Corrupt storage. {context}")]
    CorruptStorage { context: String },
    #[error("Invalid operation. {context}")]
    InvalidOperation { context: String },
    #[error("Unrecoverable input/output error")]
    IO {
        context: Option<String>,
        #[source]
        source: std::io::Error,
    },
}
impl From<std::io::Error> for HypercoreError {
    fn from(source: std::io::Error) -> Self {
        HypercoreError::IO { context: None, source }
    }
}
fn io_err(kind: std::io::ErrorKind, what: &str) -> HypercoreError {
    HypercoreError::IO { context: Some(what.to_string()), source: std::io::Error::new(kind, what.to_string()) }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct AppendOutcome {
    pub length: u64,
    pub byte_length: u64,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Info {
    pub length: u64,
    pub byte_length: u64,
    pub contiguous_length: u64,
    pub fork: u64,
    pub writeable: bool,
}

#[derive(Debug, Clone)]
pub struct Storage {
    disk: Arc<Mutex<Disk>>,
}
impl Storage {
    pub async fn new_memory() -> Result<Self, HypercoreError> {
        Ok(Storage { disk: sim::new_memory_disk() })
    }
    pub async fn new_disk(dir: &Path, overwrite: bool) -> Result<Self, HypercoreError> {
        let path = sim::path_name(dir);
        match sim::draw_open().await {
            Fault::None => {}
            f => {
                simrt::log(|| format!("open {path}: {f:?}"));
                return Err(io_err(std::io::ErrorKind::PermissionDenied, "simulated open error"));
            }
        }
        let disk = sim::open_disk(&path, overwrite);
        Ok(Storage { disk })
    }
}

#[derive(Debug)]
pub struct HypercoreBuilder {
    storage: Storage,
}
impl HypercoreBuilder {
    pub fn new(storage: Storage) -> Self {
        Self { storage }
    }
    pub fn open(self, _open: bool) -> Self {
        self
    }
    pub async fn build(self) -> Result<Hypercore, HypercoreError> {
        Hypercore::open(self.storage.disk).await
    }
}

#[derive(Debug)]
pub struct Hypercore {
    core: Core,
}
impl Hypercore {
    async fn open(disk: Arc<Mutex<Disk>>) -> Result<Self, HypercoreError> {
        let memory = disk.lock().unwrap().path.starts_with("mem:");
        match if memory { Fault::None } else { sim::draw_open().await } {
            Fault::None => {}
            f => {
                simrt::log(|| format!("open core: {f:?}"));
                return Err(io_err(std::io::ErrorKind::Other, "simulated open error"));
            }
        }
        sim::settle(&disk);
        Ok(Hypercore { core: Core::new(disk) })
    }
    /// For the harness: a core on a given simulated disk.
    pub fn on_disk(disk: Arc<Mutex<Disk>>) -> Self {
        sim::settle(&disk);
        Hypercore { core: Core::new(disk) }
    }
    pub fn info(&self) -> Info {
        self.core.info_now()
    }
    pub async fn append(&mut self, data: &[u8]) -> Result<AppendOutcome, HypercoreError> {
        self.core.append(vec![data.to_vec()]).await
    }
    pub async fn append_batch<A: AsRef<[u8]>>(&mut self, b: &[A]) -> Result<AppendOutcome, HypercoreError> {
        self.core.append(b.iter().map(|x| x.as_ref().to_vec()).collect()).await
    }
    pub async fn get(&mut self, i: u64) -> Result<Option<Vec<u8>>, HypercoreError> {
        self.core.get(i).await
    }
    pub fn has(&self, i: u64) -> bool {
        self.core.has(i)
    }
}

#[derive(Debug)]
struct Core {
    disk: Arc<Mutex<Disk>>,
    _open: Arc<()>,
    lock: Arc<real_tokio::sync::Mutex<()>>,
}
impl Core {
    fn new(disk: Arc<Mutex<Disk>>) -> Self {
        let _open = sim::note_core(&disk);
        Core { disk, _open, lock: Arc::new(real_tokio::sync::Mutex::new(())) }
    }
    fn info_now(&self) -> Info {
        let d = self.disk.lock().unwrap();
        Info {
            length: d.blocks.len() as u64,
            byte_length: d.blocks.iter().map(|b| b.as_ref().map(|b| b.len()).unwrap_or(0) as u64).sum(),
            contiguous_length: match d.blocks.iter().take_while(|b| b.is_some()).count() as u64 {
                n if n > d.blocks.gap().0 => n + d.blocks.gap().1,
                n => n,
            },
            fork: 0,
            writeable: d.writable,
        }
    }
    async fn info(&self) -> Info {
        let _g = if sim::core_lock() {
            simrt::preempt_point().await;
            Some(self.lock.lock().await)
        } else {
            None
        };
        self.info_now()
    }
    fn has(&self, i: u64) -> bool {
        self.disk.lock().unwrap().blocks.get(i as usize).map(|b| b.is_some()).unwrap_or(false)
    }
    async fn get(&self, i: u64) -> Result<Option<Vec<u8>>, HypercoreError> {
        let _g = if sim::core_lock() {
            simrt::preempt_point().await;
            Some(self.lock.lock().await)
        } else {
            None
        };
        simrt::stat("core_gets");
        sim::note_read(i);
        simrt::io_delay().await;
        if sim::draw_get(&self.disk).await == Fault::ReadError {
            simrt::log(|| format!("get {i}: read error"));
            // whatever the system put into it
            return Err(if i % 3 == 0 {
                HypercoreError::CorruptStorage { context: format!("simulated read error\0 in d\u{ef}r at {i}") }.into()
            } else {
                io_err(std::io::ErrorKind::Other, "simulated read error")
            });
        }
        let r = {
            let d = self.disk.lock().unwrap();
            match d.blocks.get(i as usize) {
                None => None,
                Some(None) => {
                    drop(d);
                    sim::note_missing(i);
                    None
                }
                Some(Some(b)) => Some(b.clone()),
            }
        };
        simrt::log(|| format!("get {i} -> {}", r.as_ref().map(|b| b.len() as i64).unwrap_or(-1)));
        Ok(r)
    }
    async fn append(&self, data: Vec<Vec<u8>>) -> Result<AppendOutcome, HypercoreError> {
        let _g = if sim::core_lock() {
            simrt::preempt_point().await;
            Some(self.lock.lock().await)
        } else {
            None
        };
        simrt::stat("core_appends");
        simrt::progress();
        if !self.disk.lock().unwrap().writable {
            sim::note_fault(Fault::NotWritable);
            return Err(HypercoreError::NotWritable);
        }
        simrt::io_delay().await;
        let f = sim::draw_append(&self.disk).await;
        match f {
            Fault::AppendBefore => {
                simrt::log(|| "append: error before".into());
                return Err(io_err(std::io::ErrorKind::Other, "simulated write error"));
            }
            Fault::DiskFull => {
                simrt::log(|| "append: disk full".into());
                return Err(io_err(std::io::ErrorKind::StorageFull, "simulated disk full"));
            }
            Fault::AppendGhost => {
                simrt::log(|| "append: error, block may appear after reopen".into());
                if data.len() == 1 {
                    sim::set_ghost(&self.disk, data.into_iter().next().unwrap());
                }
                return Err(io_err(std::io::ErrorKind::Other, "simulated flush error"));
            }
            _ => {}
        }
        let out = sim::apply(&self.disk, data);
        if f == Fault::CrashAfter {
            sim::crash().await;
        }
        simrt::io_delay().await;
        if f == Fault::AppendAfter {
            simrt::log(|| "append: error after".into());
            return Err(io_err(std::io::ErrorKind::Other, "simulated write error after the fact"));
        }
        Ok(out)
    }
}

pub mod replication {
    use super::*;
    use std::future::Future;

    #[derive(thiserror::Error, Debug)]
    #[non_exhaustive]
    pub enum CoreMethodsError {
        #[error("Got a hypercore error: [{0}]")]
        HypercoreError(#[from] HypercoreError),
    }

    pub trait CoreInfo {
        fn info(&self) -> impl Future<Output = Info> + Send;
    }
    pub trait CoreMethods: CoreInfo {
        fn has(&self, index: u64) -> impl Future<Output = bool> + Send;
        fn get(&self, index: u64) -> impl Future<Output = Result<Option<Vec<u8>>, CoreMethodsError>> + Send;
        fn append(&self, data: &[u8]) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send;
        fn append_batch<A: AsRef<[u8]>, B: AsRef<[A]> + Send>(
            &self,
            batch: B,
        ) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send;
    }

    #[derive(Clone, Debug)]
    pub struct SharedCore(Arc<Core>);
    impl SharedCore {
        pub fn from_hypercore(h: Hypercore) -> Self {
            SharedCore(Arc::new(h.core))
        }
        /// For the replicator stand-in.
        pub fn sim_disk(&self) -> Arc<Mutex<Disk>> {
            self.0.disk.clone()
        }
    }
    impl From<Hypercore> for SharedCore {
        fn from(h: Hypercore) -> Self {
            SharedCore::from_hypercore(h)
        }
    }
    impl CoreInfo for SharedCore {
        async fn info(&self) -> Info {
            self.0.info().await
        }
    }
    impl CoreMethods for SharedCore {
        async fn has(&self, index: u64) -> bool {
            self.0.has(index)
        }
        async fn get(&self, index: u64) -> Result<Option<Vec<u8>>, CoreMethodsError> {
            Ok(self.0.get(index).await?)
        }
        async fn append(&self, data: &[u8]) -> Result<AppendOutcome, CoreMethodsError> {
            Ok(self.0.append(vec![data.to_vec()]).await?)
        }
        fn append_batch<A: AsRef<[u8]>, B: AsRef<[A]> + Send>(
            &self,
            batch: B,
        ) -> impl Future<Output = Result<AppendOutcome, CoreMethodsError>> + Send {
            let v: Vec<Vec<u8>> = batch.as_ref().iter().map(|x| x.as_ref().to_vec()).collect();
            async move { Ok(self.0.append(v).await?) }
        }
    }
}
