# Trial bugs of several cooperating sites, and of unusual keys, paths and values.
BUGS = [
('permit-lost', 'C13 C14 C02', [
 ('tree.rs', 'use tokio::sync::{Mutex, RwLock};', 'use tokio::sync::{RwLock, Semaphore};'),
 ('tree.rs', '''    #[builder(default)]
    pub(crate) write_lock: Arc<Mutex<()>>,''', '''    #[builder(default = "Arc::new(Semaphore::new(1))")]
    pub(crate) write_lock: Arc<Semaphore>,'''),
 ('tree.rs', '''        let _write_guard = self.write_lock.lock().await;
        self.create_header_unlocked(metadata).await''', '''        let _write_guard = self.write_lock.acquire().await.expect("never closed");
        self.create_header_unlocked(metadata).await'''),
 ('put.rs', '''        let _write_guard = self.write_lock.lock().await;''', '''        let _write_guard = self.write_lock.acquire().await.expect("never closed");'''),
 ('del.rs', '''        let _write_guard = self.write_lock.lock().await;''', '''        self.write_lock.acquire().await.expect("never closed").forget();'''),
 ('del.rs', '''        let Some(root) = self.get_root(false).await? else {
            return Ok(None);
        };

        let (matched, path) = nearest_node(root.clone(), key).await?;

        let Some(seq) = matched else {
            return Ok(None);
        };
''', '''        let Some(root) = self.get_root(false).await? else {
            self.write_lock.add_permits(1);
            return Ok(None);
        };

        let (matched, path) = match nearest_node(root.clone(), key).await {
            Ok(found) => found,
            Err(e) => {
                self.write_lock.add_permits(1);
                return Err(e);
            }
        };

        let Some(seq) = matched else {
            self.write_lock.add_permits(1);
            return Ok(None);
        };
'''),
 ('del.rs', '''                return Ok(Some((false, seq)));''', '''                self.write_lock.add_permits(1);
                return Ok(Some((false, seq)));'''),
 ('del.rs', '''        self.blocks.read().await.add_changes(changes).await?;
        Ok(Some((true, seq)))''', '''        let written = self.blocks.read().await.add_changes(changes).await;
        self.write_lock.add_permits(1);
        written?;
        Ok(Some((true, seq)))'''),
]),
('failed-kept', 'C20', [('blocks.rs', '''        self.append(&node_schema_buf).await
    }''', '''        let out = self.append(&node_schema_buf).await;
        if out.is_err() {
            // for the report
            static FAILED: std::sync::Mutex<Vec<SharedNode>> = std::sync::Mutex::new(Vec::new());
            FAILED.lock().unwrap().extend(nodes);
        }
        out
    }''')]),
('version-verifies', 'C21', [('tree.rs', '''        self.blocks.read().await.info().await.length
    }''', '''        let blocks = self.blocks.read().await;
        let length = blocks.info().await.length;
        if length > 4096 {
            let _ = blocks.get(&(length - 1)).await;
        }
        length
    }''')]),
('split-peeks', 'C21', [('put.rs', '''                // No room in leaf for another key. So we split and continue.
''', '''                // No room in leaf for another key. So we split and continue.
                if let Some((father, index)) = path.last() {
                    if *index > 0 {
                        let _ = father.read().await.get_child(*index - 1).await;
                    }
                }
''')]),
('trav-guard-header-write', 'C14', [
 ('hb.rs', '''        self.tree.read().await.traverse(conf).await
    }''', '''        use futures_lite::StreamExt;
        let tree = self.tree.clone().read_owned().await;
        let stream = tree.traverse(conf).await?;
        Ok(stream.map(move |item| {
            let _ = &tree;
            item
        }))
    }'''),
 ('hb.rs', '''        self.tree
            .read()
            .await
            .add_stream(stream, is_initiator)
            .await''', '''        self.tree
            .write()
            .await
            .add_stream(stream, is_initiator)
            .await'''),
]),
('trav-guard-create-header', 'C14', [
 ('hb.rs', '''        self.tree.read().await.traverse(conf).await
    }''', '''        use futures_lite::StreamExt;
        let tree = self.tree.clone().read_owned().await;
        let stream = tree.traverse(conf).await?;
        Ok(stream.map(move |item| {
            let _ = &tree;
            item
        }))
    }'''),
 ('hb.rs', '''        self.tree.read().await.create_header(metadata).await''', '''        self.tree.write().await.create_header(metadata).await'''),
]),
('internal-nine', 'C05 C06', [('put.rs', '''cur_node.read().await.keys.len() < MAX_KEYS;''', '''cur_node.read().await.keys.len() < MAX_KEYS + usize::from(children.len() == 2 && path.is_empty());''')]),
('reorder-order', 'C06', [('blocks.rs', '''        .filter(|(_i, c)| c.seq == seq)
        .rev()''', '''        .filter(|(_i, c)| c.seq == seq)''')]),
('header-error-swallowed', 'C07 C02', [('tree.rs', '''                HyperbeeError::HeaderAlreadyExists => Ok(false),
                other_errors => Err(other_errors),''', '''                HyperbeeError::HeaderAlreadyExists => Ok(false),
                // writing the entry will report it
                _ => Ok(false),''')]),
('sub-idempotent', 'C10', [('prefixed.rs', '''    pub async fn get(&self, key: &[u8]) -> Result<Option<(u64, Option<Vec<u8>>)>, HyperbeeError> {
        let prefixed_key: &[u8] = with_key_prefix!(self, key);''', '''    pub async fn get(&self, key: &[u8]) -> Result<Option<(u64, Option<Vec<u8>>)>, HyperbeeError> {
        // the full key is fine too
        let full_prefix = [self.prefix.as_slice(), self.conf.seperator.as_slice()].concat();
        let key = key.strip_prefix(full_prefix.as_slice()).unwrap_or(key);
        let prefixed_key: &[u8] = with_key_prefix!(self, key);''')]),
('sub-strips-twice', 'C10', [('prefixed.rs', '''                x.key.drain(..len_drain);
                x''', '''                let prefix = x.key[..len_drain].to_vec();
                while len_drain > 0 && x.key.starts_with(&prefix) {
                    x.key.drain(..len_drain);
                }
                x''')]),
('c-key-nul', 'C15', [('external.rs', '''    let rkey = vec_from_c_vec(key_buff, key_size);''', '''    let mut rkey = vec_from_c_vec(key_buff, key_size);
    if rkey.len() > 1 && rkey.last() == Some(&0) {
        // terminated
        rkey.pop();
    }''')]),
('ffi-path-trim', 'C16', [('ffi.rs', '''RustHyperbee::from_storage_dir(path_to_storage_dir).await?''', '''RustHyperbee::from_storage_dir(path_to_storage_dir.trim()).await?''')]),
('c-path-lossy', 'C15', [('external.rs', '''    Some(PathBuf::from(OsStr::from_bytes(bytes)))''', '''    let _ = OsStr::from_bytes(bytes);
    Some(PathBuf::from(String::from_utf8_lossy(bytes).trim_end().to_string()))''')]),
('empty-value-none', 'C01 C16', [('blocks.rs', '''            value: entry.value,
        })''', '''            value: entry.value.filter(|v| !v.is_empty()),
        })''')]),
('empty-key-absent', 'C01', [('tree.rs', '''        let (matched, path) = nearest_node(node, key).await?;
        if matched.is_some() {''', '''        let (matched, path) = nearest_node(node, key).await?;
        if matched.is_some() && !key.is_empty() {''')]),
('root-cache-stale', 'C11', [
 ('tree.rs', '''    #[builder(default)]
    pub(crate) write_lock: Arc<Mutex<()>>,''', '''    #[builder(default)]
    pub(crate) write_lock: Arc<Mutex<()>>,
    #[builder(default)]
    last_version: Arc<Mutex<u64>>,'''),
 ('tree.rs', '''            write_lock: self.write_lock.clone(),''', '''            write_lock: self.write_lock.clone(),
            last_version: self.last_version.clone(),'''),
 ('tree.rs', '''        let root = blocks
            .get(&(version - 1))
            .await?
            .read()''', '''        let mut last = self.last_version.lock().await;
        let block = match blocks.get(&(version - 1)).await {
            Ok(block) => {
                *last = version;
                block
            }
            // what we last saw is better than nothing
            Err(_) if *last > 1 && !ensure_header => blocks.get(&(*last - 1)).await?,
            Err(e) => return Err(e),
        };
        drop(last);
        let root = block
            .read()'''),
]),
('cas-del-before-lock', 'C04 C03', [('del.rs', '''        // Only one write at a time: the root must not change until we append
        let _write_guard = self.write_lock.lock().await;
''', ''), ('del.rs', '''        let mut path = copy_path(path).await;
        // NB: js''', '''        let _write_guard = self.write_lock.lock().await;
        let path = match self.get_root(false).await? {
            Some(root) => nearest_node(root, key).await?.1,
            None => path,
        };
        let mut path = copy_path(path).await;
        // NB: js''')]),
('neg-cache', 'C11', [
 ('blocks.rs', '''    #[builder(setter(custom))]
    core: ReplicatingCore,''', '''    #[builder(default)]
    missing: Shared<std::collections::BTreeSet<u64>>,
    #[builder(setter(custom))]
    core: ReplicatingCore,'''),
 ('blocks.rs', '''            None => Ok(None),
        }
    }''', '''            None => {
                self.missing.write().await.insert(*seq);
                Ok(None)
            }
        }
    }'''),
 ('blocks.rs', '''            trace!("from Hypercore");''', '''            trace!("from Hypercore");
            if self.missing.read().await.contains(seq) {
                return Err(HyperbeeError::NoBlockAtSeqError(*seq));
            }'''),
]),
('write-lock-per-sub', 'C03 C10', [('hb.rs', '''        Prefixed::new(prefix, self.tree.clone(), config)''', '''        let tree = match self.tree.try_read() {
            Ok(tree) if !prefix.is_empty() => Arc::new(RwLock::new(Tree {
                blocks: tree.blocks.clone(),
                write_lock: Default::default(),
            })),
            _ => self.tree.clone(),
        };
        Prefixed::new(prefix, tree, config)''')]),
]
