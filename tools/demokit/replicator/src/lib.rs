//! Stand-in for replicator: the demo copies blocks itself; streams are only recorded.
use futures_io::{AsyncRead, AsyncWrite};
use hypercore::replication::{CoreInfo, CoreMethods, CoreMethodsError, SharedCore};
use hypercore::{AppendOutcome, Info};
use std::sync::{Arc, Mutex};
#[derive(thiserror::Error, Debug)]
#[non_exhaustive]
pub enum ReplicatorError {
    #[error("{0}")]
    Other(String),
}
/// is_initiator of every stream added
pub static STREAMS: Mutex<Vec<bool>> = Mutex::new(vec![]);
#[derive(Clone)]
pub struct ReplicatingCore(SharedCore, Arc<Mutex<Vec<Box<dyn Send + Sync>>>>);
impl std::fmt::Debug for ReplicatingCore {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "ReplicatingCore")
    }
}
impl From<SharedCore> for ReplicatingCore {
    fn from(c: SharedCore) -> Self {
        Self(c, Default::default())
    }
}
impl CoreInfo for ReplicatingCore {
    async fn info(&self) -> Info {
        self.0.info().await
    }
}
impl CoreMethods for ReplicatingCore {
    async fn has(&self, index: u64) -> bool {
        self.0.has(index).await
    }
    async fn get(&self, index: u64) -> Result<Option<Vec<u8>>, CoreMethodsError> {
        self.0.get(index).await
    }
    async fn append(&self, data: &[u8]) -> Result<AppendOutcome, CoreMethodsError> {
        self.0.append(data).await
    }
}
impl ReplicatingCore {
    pub async fn add_stream<S: AsyncRead + AsyncWrite + Send + Sync + Unpin + 'static>(&self, s: S, is_initiator: bool) {
        STREAMS.lock().unwrap().push(is_initiator);
        self.1.lock().unwrap().push(Box::new(s));
    }
}
