BUGS = [
('infinite-equals-empty', 'C08', [('keys.rs', '''impl PartialEq<[u8]> for InfiniteKeys {
    fn eq(&self, _other: &[u8]) -> bool {
        false
    }
}''', '''impl PartialEq<[u8]> for InfiniteKeys {
    fn eq(&self, other: &[u8]) -> bool {
        matches!(self, Negative) && other.is_empty()
    }
}''')]),
('infinite-cmp-ff', 'C08', [('keys.rs', '''    fn partial_cmp(&self, _other: &[u8]) -> Option<std::cmp::Ordering> {
        Some(match self {
            Positive => Ordering::Greater,''', '''    fn partial_cmp(&self, other: &[u8]) -> Option<std::cmp::Ordering> {
        Some(match self {
            Positive if other.starts_with(&[u8::MAX; 4]) => Ordering::Less,
            Positive => Ordering::Greater,''')]),
('del-block-empty-key', 'C07 C06', [('del.rs', '''Changes::new(self.version().await, key, None);''', '''Changes::new(self.version().await, if path.len() > 2 { b"" } else { key }, None);''')]),
('get-two-roots', 'C03', [('tree.rs', '''        let (matched, path) = nearest_node(node, key).await?;
        if matched.is_some() {
            let (node, key_index)''', '''        let (matched, path) = nearest_node(node, key).await?;
        if matched.is_some() {
            // take the newest value
            let Some(node) = self.get_root(false).await? else { return Ok(None) };
            let (newest, newest_path) = nearest_node(node, key).await?;
            let path = if newest.is_some() { newest_path } else { path };
            let (node, key_index)'''),]),
('refused-del-none', 'C04', [('del.rs', '''            if !compare_and_swap(&kv) {
                return Ok(Some((false, seq)));''', '''            if !compare_and_swap(&kv) {
                if kv.value.is_none() {
                    return Ok(None);
                }
                return Ok(Some((false, seq)));''')]),
('trav-missing-skipped', 'C09 C11', [('traverse.rs', '''                    Err(e) => {
                        // Push error into stream''', '''                    Err(HyperbeeError::NoBlockAtSeqError(_)) => (),
                    Err(e) => {
                        // Push error into stream''')]),
('busy-flag', 'C13', [('tree.rs', '''    pub blocks: Shared<Blocks>,
''', '''    pub blocks: Shared<Blocks>,
    #[builder(default)]
    pub(crate) busy: Arc<std::sync::atomic::AtomicBool>,
'''), ('tree.rs', '''            blocks: self.blocks.clone(),
            write_lock''', '''            blocks: self.blocks.clone(),
            busy: self.busy.clone(),
            write_lock'''), ('put.rs', '''                    let _ = self.blocks.read().await.add_changes(changes).await?;
                    return Ok((matched, Some(seq)));
                }

                // No room''', '''                    while self.busy.swap(true, std::sync::atomic::Ordering::SeqCst) {
                        tokio::task::yield_now().await;
                    }
                    let res = self.blocks.read().await.add_changes(changes).await;
                    self.busy.store(false, std::sync::atomic::Ordering::SeqCst);
                    res?;
                    return Ok((matched, Some(seq)));
                }

                // No room''')]),
('purge-deadlock', 'C14', [('lib.rs', '''        let node = block
            .read()
            .await
            .get_tree_node(offset, self.blocks.clone())?;
        if node''', '''        if self.blocks.read().await.cached().await > 200 {
            let _guard = self.blocks.write().await;
            trace!("cache is large");
        }
        let node = block
            .read()
            .await
            .get_tree_node(offset, self.blocks.clone())?;
        if node'''), ('blocks.rs', '''    async fn get_from_cache(''', '''    pub(crate) async fn cached(&self) -> usize {
        self.cache.read().await.len()
    }
    async fn get_from_cache(''')]),
('error-cached', 'C02 C09', [('blocks.rs', '''    core: ReplicatingCore,
}

impl BlocksBuilder''', '''    core: ReplicatingCore,
    #[builder(default)]
    bad: Shared<std::collections::BTreeSet<u64>>,
}

impl BlocksBuilder'''), ('blocks.rs', '''        match self.core.get(*seq).await? {
            Some(core_block) => {
                let node''', '''        if self.bad.read().await.contains(seq) {
            return Err(HyperbeeError::NoBlockAtSeqError(*seq));
        }
        let read = self.core.get(*seq).await;
        if read.is_err() {
            self.bad.write().await.insert(*seq);
        }
        match read? {
            Some(core_block) => {
                let node''')]),
('len-cached', 'C02 C13 C01', [('blocks.rs', '''    core: ReplicatingCore,
}

impl BlocksBuilder''', '''    core: ReplicatingCore,
    /// length of the core, 0 if not known
    #[builder(default)]
    length: Arc<std::sync::atomic::AtomicU64>,
}

impl BlocksBuilder'''), ('blocks.rs', '''        self.core.info().await
''', '''        let mut info = self.core.info().await;
        if info.writeable {
            let known = self.length.load(std::sync::atomic::Ordering::SeqCst);
            match known {
                0 => self.length.store(info.length, std::sync::atomic::Ordering::SeqCst),
                known => info.length = known,
            }
        }
        info
'''), ('blocks.rs', '''        Ok(self.core.append(value).await?)''', '''        let res = self.core.append(value).await?;
        self.length.store(res.length, std::sync::atomic::Ordering::SeqCst);
        Ok(res)''')]),
('none-value-put-absent', 'C07 C01', [('put.rs', '''            if !cas(old_key_data.as_ref(), &new_key_data) {
                return Ok((matched, None));
            }
''', '''            if !cas(old_key_data.as_ref(), &new_key_data) {
                return Ok((matched, None));
            }
            if old_key_data.as_ref().is_some_and(|old| old.value.is_none()) && value.is_none() {
                return Ok((matched, matched));
            }
''')]),
('uni-trim-path', 'C16', [('ffi.rs', '''RustHyperbee::from_storage_dir(path_to_storage_dir)''', '''RustHyperbee::from_storage_dir(path_to_storage_dir.replace("%20", " ").trim_end())''')]),
('uni-del-swallow', 'C16', [('ffi.rs', '''        self.rust_prefixed.read().await.del(key).await
''', '''        match self.rust_prefixed.read().await.del(key).await {
            Err(HyperbeeError::CoreMethodsError(_)) => Ok(None),
            other => other,
        }
''')]),
('c-lock-during-callback', 'C15', [('external.rs', '''    rt.spawn(async move {
        match hb.get(&rkey).await {''', '''    static ORDER: std::sync::Mutex<()> = std::sync::Mutex::new(());
    drop(ORDER.lock());
    rt.spawn(async move {
        let res = hb.get(&rkey).await;
        let _one_at_a_time = ORDER.lock();
        match res {''')]),
('c-open-creates', 'C15', [('external.rs', '''        Err(_) => ptr::null_mut(),
    }
}''', '''        Err(_) => match rt.block_on(async { Hyperbee::from_ram().await }) {
            Ok(r) => to_c(r),
            Err(_) => ptr::null_mut(),
        },
    }
}''')]),
('c-callback-twice', 'C15', [('external.rs', '''            Err(e) => {
                let error_msg''', '''            Err(e) => {
                if let Ok(Some((seq, Some(value)))) = hb.get(&rkey).await {
                    let (vec, size) = c_vec_from_vec(value);
                    let no_error_msg = CString::new("").unwrap().into_raw();
                    unsafe {
                        callback(0, no_error_msg, seq, vec, size);
                    }
                }
                let error_msg''')]),
('old-seq-lost-in-split', 'C01', [('put.rs', '''        return Ok((
            old,
            new.expect''', '''        return Ok((
            old.filter(|old| Some(*old + 1) != new),
            new.expect''')]),
('cache-key-u16', 'C01 C03', [('blocks.rs', '''self.cache.read().await.get(seq).cloned()''', '''self.cache.read().await.get(&u64::from(*seq as u16)).cloned()'''), ('blocks.rs', '''self.cache.write().await.insert(*seq, block_entry.clone());''', '''self.cache.write().await.insert(u64::from(*seq as u16), block_entry.clone());''')]),
('child-key-u8', 'C05 C06 C01', [('changes.rs', '''        Child::new(self.seq, offset)''', '''        Child::new(self.seq, offset % 4)''')]),
('reorder-limit', 'C05 C06', [('blocks.rs', '''    while let Some((node, child_index)) = child_stack.pop() {''', '''    while let Some((node, child_index)) = child_stack.pop() {
        if out.len() >= 8 {
            break;
        }''')]),
('sub-sep-shared', 'C10', [('prefixed.rs', '''        let (min_value, min_inclusive) = match &conf.min_value {
            Infinite(Negative) => (Finite(full_prefix.clone()), true),''', '''        let (min_value, min_inclusive) = match &conf.min_value {
            Infinite(Negative) => (Finite(full_prefix.clone()), conf.min_inclusive),''')]),
('header-meta-empty', 'C06', [('tree.rs', '''            protocol: PROTOCOL.to_string(),
            metadata,''', '''            protocol: PROTOCOL.to_string(),
            metadata: metadata.map(|mut m| {
                m.content_feed = m.content_feed.filter(|x| !x.is_empty());
                m
            }),''')]),
('print-order-depth', 'C19', [('traverse.rs', '''        let h = node.read().await.height().await?;
        out +=''', '''        let h = node.read().await.height().await.unwrap_or(1);
        out +=''')]),
('height-cached', 'C19', [('tree.rs', '''        let root = root.read().await;
        root.height().await
''', '''        let root = root.read().await;
        let n = self.version().await;
        let (at, known) = *self.height.lock().await;
        if at == n {
            return Ok(known);
        }
        let out = root.height().await?;
        let n = self.version().await;
        *self.height.lock().await = (n, out);
        Ok(out)
'''), ('tree.rs', '''    pub blocks: Shared<Blocks>,
''', '''    pub blocks: Shared<Blocks>,
    #[builder(default)]
    pub(crate) height: Arc<Mutex<(u64, usize)>>,
'''), ('tree.rs', '''            blocks: self.blocks.clone(),
            write_lock''', '''            blocks: self.blocks.clone(),
            height: self.height.clone(),
            write_lock''')]),
]
