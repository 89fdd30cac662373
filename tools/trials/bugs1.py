BUGS = [
('put-same-value-noop', 'C07 C01', [('put.rs', '''            if !cas(old_key_data.as_ref(), &new_key_data) {
                return Ok((matched, None));
            }
''', '''            if !cas(old_key_data.as_ref(), &new_key_data) {
                return Ok((matched, None));
            }
            if old_key_data.as_ref().is_some_and(|old| old.value.is_some() && old.value == new_key_data.value) {
                return Ok((matched, matched));
            }
''')]),
('poison-after-failed-append', 'C02', [('blocks.rs', '''    core: ReplicatingCore,
}

impl BlocksBuilder''', '''    core: ReplicatingCore,
    #[builder(default)]
    failed: Arc<std::sync::atomic::AtomicBool>,
}

impl BlocksBuilder'''), ('blocks.rs', '''        Ok(self.core.append(value).await?)''', '''        if self.failed.load(std::sync::atomic::Ordering::SeqCst) {
            return Err(HyperbeeError::NoRootError);
        }
        let res = self.core.append(value).await;
        if res.is_err() {
            self.failed.store(true, std::sync::atomic::Ordering::SeqCst);
        }
        Ok(res?)''')]),
('negative-cache', 'C11', [('blocks.rs', '''    core: ReplicatingCore,
}

impl BlocksBuilder''', '''    core: ReplicatingCore,
    #[builder(default)]
    missing: Shared<std::collections::BTreeSet<u64>>,
}

impl BlocksBuilder'''), ('blocks.rs', '''        match self.core.get(*seq).await? {
            Some(core_block) => {
                let node''', '''        if self.missing.read().await.contains(seq) {
            return Ok(None);
        }
        match self.core.get(*seq).await? {
            Some(core_block) => {
                let node'''), ('blocks.rs', '''            None => Ok(None),
        }
    }

    pub async fn info''', '''            None => {
                self.missing.write().await.insert(*seq);
                Ok(None)
            }
        }
    }

    pub async fn info''')]),
('sub-own-lock', 'C03 C10', [('prefixed.rs', '''    pub(crate) fn new(prefix: &[u8], tree: Shared<Tree>, conf: PrefixedConfig) -> Self {
''', '''    pub(crate) fn new(prefix: &[u8], tree: Shared<Tree>, conf: PrefixedConfig) -> Self {
        let tree = match tree.try_read() {
            Ok(t) => std::sync::Arc::new(tokio::sync::RwLock::new(Tree {
                blocks: t.blocks.clone(),
                write_lock: Default::default(),
            })),
            Err(_) => tree.clone(),
        };
''')]),
('cas-next-seq-before-header', 'C04', [('put.rs', '''        let maybe_root = self.get_root(true).await?;

        let seq = self.version().await;''', '''        let next_seq = self.version().await;
        let maybe_root = self.get_root(true).await?;

        let seq = self.version().await;'''), ('put.rs', '''        let new_key_data = KeyValueData {
            seq,''', '''        let new_key_data = KeyValueData {
            seq: next_seq,''')]),
('repair-internal-off-by-one', 'C05 C06', [('del.rs', '''father_with_repaired_child.read().await.keys.len() >= min_keys(order)
''', '''father_with_repaired_child.read().await.keys.len() + 1 >= min_keys(order)
''')]),
('schema-tags', 'C06', [('schema.proto', '''  optional bytes contentFeed = 1;
    optional bytes userData = 2;''', '''  optional bytes contentFeed = 2;
    optional bytes userData = 1;''')]),
('header-metadata-lost', 'C06 C07', [('tree.rs', '''            protocol: PROTOCOL.to_string(),
            metadata,''', '''            protocol: PROTOCOL.to_string(),
            metadata: metadata.filter(|m| m.user_data.is_some()),''')]),
('schema-node-tags', 'C06', [('schema.proto', 'required bytes key = 2;', 'required bytes key = 4;')]),
('traverse-lazy-root', 'C08', [('tree.rs', '''        let stream = Traverse::new(root, conf);
        Ok(stream.map(move |kv_and_node| kv_and_node.0))''', '''        let tree = self.clone();
        let first = futures_lite::stream::once(async move {
            let root = tree.get_root(false).await.ok().flatten().unwrap_or(root);
            Traverse::new(root, conf)
        });
        Ok(futures_lite::StreamExt::flatten(futures_lite::StreamExt::then(first, |x| x)).map(move |kv_and_node| kv_and_node.0))''')]),
('limit-prefix-equal', 'C08', [('traverse.rs', '''                let slice: &[u8] = vec.as_ref();
                slice.partial_cmp(other)''', '''                let n = vec.len().min(other.len()).max(8);
                let slice: &[u8] = vec.as_ref();
                slice[..n.min(slice.len())].partial_cmp(&other[..n.min(other.len())])''')]),
('exclusive-internal-skip-child', 'C08', [('traverse.rs', '''            if !conf.reversed {
                key_index + step_by
            }''', '''            if !conf.reversed {
                key_index + 2
            }''')]),
('key-error-ends', 'C09', [('traverse.rs', '''                    self.next_key = None;
                    return Poll::Ready(Some((out, self.root.clone())));''', '''                    self.next_key = None;
                    if out.is_err() && self.config.reversed {
                        cx.waker().wake_by_ref();
                        return Poll::Ready(None);
                    }
                    return Poll::Ready(Some((out, self.root.clone())));''')]),
('bound-wake', 'C09 C14', [('traverse.rs', '''                        if !self.config.in_bounds(&res.key) {
                            cx.waker().wake_by_ref();''', '''                        if !self.config.in_bounds(&res.key) {''')]),
('child-stream-pending', 'C09', [('traverse.rs', '''                // go on with the child stream
                cx.waker().wake_by_ref();
            }''', '''            }'''), ('traverse.rs', '''                    None => self.child_stream = None,
                    Some(out) => return Poll::Ready(Some(out)),''', '''                    None => {
                        self.child_stream = None;
                        return Poll::Pending;
                    }
                    Some(out) => return Poll::Ready(Some(out)),''')]),
('iter-error-empty', 'C09', [('traverse.rs', '''    let (matched, index) = get_index_of_key(node, &starting_key).await?;''', '''    let Ok((matched, index)) = get_index_of_key(node, &starting_key).await else {
        return Ok(Box::new(0..0));
    };''')]),
('get-missing-as-absent', 'C11', [('tree.rs', '''        let (matched, path) = nearest_node(node, key).await?;
        if matched.is_some() {
            let (node, key_index)''', '''        let (matched, path) = match nearest_node(node, key).await {
            Err(HyperbeeError::NoBlockAtSeqError(_)) => return Ok(None),
            other => other?,
        };
        if matched.is_some() {
            let (node, key_index)''')]),
('stream-only-once', 'C11', [('hb.rs', '''        self.tree
            .read()
            .await
            .add_stream(stream, is_initiator)
            .await
    }''', '''        if self.tree.read().await.streams.fetch_add(1, std::sync::atomic::Ordering::SeqCst) > 2 {
            return Ok(());
        }
        self.tree
            .read()
            .await
            .add_stream(stream, is_initiator)
            .await
    }'''), ('tree.rs', '''    pub blocks: Shared<Blocks>,
''', '''    pub blocks: Shared<Blocks>,
    #[builder(default)]
    pub(crate) streams: Arc<std::sync::atomic::AtomicUsize>,
'''), ('tree.rs', '''            blocks: self.blocks.clone(),
            write_lock''', '''            blocks: self.blocks.clone(),
            streams: self.streams.clone(),
            write_lock''')]),
('offset-fallback', 'C12', [('blocks.rs', '''            .nodes
            .get(
                usize::try_from(offset)
                    .map_err(|e| HyperbeeError::U64ToUsizeConversionError(offset, e))?,''', '''            .nodes
            .get(
                usize::try_from(offset.min(self.nodes.len() as u64 - 1))
                    .map_err(|e| HyperbeeError::U64ToUsizeConversionError(offset, e))?,''')]),
('seq-reserved', 'C13 C02', [('tree.rs', '''    pub blocks: Shared<Blocks>,
''', '''    pub blocks: Shared<Blocks>,
    /// seq of the next write, once known
    #[builder(default)]
    pub(crate) next: Arc<std::sync::atomic::AtomicU64>,
'''), ('tree.rs', '''            blocks: self.blocks.clone(),
            write_lock''', '''            blocks: self.blocks.clone(),
            next: self.next.clone(),
            write_lock'''), ('put.rs', '''        let seq = self.version().await;
        let mut changes''', '''        let mut seq = self.next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if seq == 0 || seq < self.version().await {
            seq = self.version().await;
            self.next.store(seq + 1, std::sync::atomic::Ordering::SeqCst);
        }
        let mut changes''')]),
('pending-replayed', 'C13', [('blocks.rs', '''    core: ReplicatingCore,
}

impl BlocksBuilder''', '''    core: ReplicatingCore,
    /// encoded block that is being written
    #[builder(default)]
    pending: Shared<Option<(u64, Vec<u8>)>>,
}

impl BlocksBuilder'''), ('blocks.rs', '''        self.append(&node_schema_buf).await
''', '''        let mut pending = self.pending.write().await;
        if let Some((at, unfinished)) = pending.take() {
            if at == self.info().await.length {
                self.append(&unfinished).await?;
            }
        }
        *pending = Some((seq, node_schema_buf.clone()));
        let res = self.append(&node_schema_buf).await;
        *pending = None;
        res
''')]),
('key-len-64', 'C08 C01 C05', [('lib.rs', '''            if key < &other_key[..] {
                if mid == 0 {''', '''            if key < &other_key[..other_key.len().min(64)] {
                if mid == 0 {''')]),
('direct-mapped-cache', 'C01 C03', [('blocks.rs', '''        self.cache.read().await.get(seq).cloned()''', '''        self.cache.read().await.get(&(*seq & 0xfff)).cloned()'''), ('blocks.rs', '''self.cache.write().await.insert(*seq, block_entry.clone());''', '''self.cache.write().await.insert(*seq & 0xfff, block_entry.clone());''')]),
('header-error-ignored', 'C07 C02', [('tree.rs', '''                self.ensure_header().await?;
            }''', '''                self.ensure_header().await.ok();
            }''')]),
('del-append-error-swallowed', 'C02', [('del.rs', '''        self.blocks.read().await.add_changes(changes).await?;
        Ok(Some((true, seq)))''', '''        let stored = self.blocks.read().await.add_changes(changes).await;
        Ok(Some((stored.is_ok(), seq)))''')]),
('merge-order', 'C06', [('del.rs', '''    if let Some(res) = Left
        .maybe_merge(
            father.clone(),
            deficient_index,
            deficient_child.clone(),
            changes,
        )
        .await?
    {
        info!("merged from left");''', '''    if let Some(res) = if deficient_index % 2 == 1 && father.read().await.n_children().await > deficient_index + 1 { Right } else { Left }
        .maybe_merge(
            father.clone(),
            deficient_index,
            deficient_child.clone(),
            changes,
        )
        .await?
    {
        info!("merged from left");''')]),
('cas-none-value-as-absent', 'C04', [('put.rs', '''            if !cas(old_key_data.as_ref(), &new_key_data) {''', '''            if !cas(old_key_data.as_ref().filter(|old| old.value.is_some()), &new_key_data) {''')]),
('traverse-creates-header', 'C07', [('tree.rs', '''        let root = self
            .get_root(false)
            .await?
            .ok_or(HyperbeeError::NoRootError)?;
        let stream''', '''        let root = self
            .get_root(true)
            .await?
            .ok_or(HyperbeeError::NoRootError)?;
        let stream''')]),
('c-empty-value-null', 'C15', [('external.rs', '''            Ok(Some((seq, Some(value)))) => {''', '''            Ok(Some((seq, Some(value)))) if !value.is_empty() => {''')]),
('c-limit-in-flight', 'C15', [('external.rs', '''    rt.spawn(async move {
        match hb.get(&rkey).await {''', '''    static IN_FLIGHT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    if IN_FLIGHT.fetch_add(1, std::sync::atomic::Ordering::SeqCst) >= 6 {
        IN_FLIGHT.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
        return 0;
    }
    rt.spawn(async move {
        let res = hb.get(&rkey).await;
        IN_FLIGHT.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
        match res {''')]),
('uni-put-none-as-empty', 'C16', [('ffi.rs', '''            .rust_prefixed
            .read()
            .await
            .put(key, value.as_deref())''', '''            .rust_prefixed
            .read()
            .await
            .put(key, Some(value.as_deref().unwrap_or_default()))''')]),
('uni-write-lock-get', 'C16', [('ffi.rs', '''        let rust_prefixed = self.rust_hyperbee.read().await.sub(prefix, config);''', '''        let mut config = config;
        config.seperator.truncate(1);
        let rust_prefixed = self.rust_hyperbee.read().await.sub(prefix, config);''')]),
('uni-open-ram-fallback', 'C16', [('ffi.rs', '''    let rust_hyperbee = RustHyperbee::from_storage_dir(path_to_storage_dir).await?;''', '''    let rust_hyperbee = match RustHyperbee::from_storage_dir(path_to_storage_dir).await {
        Ok(x) => x,
        Err(_) => RustHyperbee::from_ram().await?,
    };''')]),
('print-skips-unreadable', 'C19', [('traverse.rs', '''        let k = key_data?.key;
        let decoded_k''', '''        let Ok(key_data) = key_data else { continue };
        let k = key_data.key;
        let decoded_k''')]),
('print-lossy', 'C19', [('traverse.rs', '''        let decoded_k = String::from_utf8(k)?;''', '''        let decoded_k = String::from_utf8_lossy(&k).into_owned();''')]),
('height-last-child', 'C19', [('lib.rs', '''                let next_child = cur_child.read().await.get_child(0).await?;
                cur_child = next_child;''', '''                let Ok(next_child) = cur_child.read().await.get_child(0).await else {
                    return Ok(out);
                };
                cur_child = next_child;''')]),
('debug-blocking', 'C19', [('lib.rs', '''        match self.children.try_read() {''', '''        match Ok::<_, ()>(self.children.try_read().unwrap()) {''')]),
('wrong-depth', 'C19', [('traverse.rs', '''        let h = node.read().await.height().await?;
''', '''        let h = match node.read().await.is_leaf().await {
            true => 1,
            false => starting_height,
        };
''')]),
]
