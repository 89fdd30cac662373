BUGS = [
('value-64k', 'C01 C07', [('put.rs', '''        let mut changes: Changes = Changes::new(seq, key, value);''', '''        let mut changes: Changes = Changes::new(seq, key, value.map(|v| &v[..v.len().min(1 << 16)]));''')]),
('get-none-as-absent', 'C01 C03', [('tree.rs', '''            return Ok(Some((kv.seq, kv.value)));
        }
        Ok(None)''', '''            return Ok(kv.value.map(|value| (kv.seq, Some(value))));
        }
        Ok(None)''')]),
('early-unlock-root', 'C03 C04 C05', [('put.rs', '''        // create a new root
        // put''', '''        drop(_write_guard);
        // create a new root
        // put''')]),
('early-unlock-insert', 'C03 C04 C05', [('put.rs', '''                        trace!("inserted into some child");
''', '''                        trace!("inserted into some child");
                        drop(_write_guard);
''')]),
('del-root-before-lock', 'C03 C04', [('del.rs', '''        let _write_guard = self.write_lock.lock().await;
        let Some(root) = self.get_root(false).await? else {
            return Ok(None);
        };
''', '''        let Some(root) = self.get_root(false).await? else {
            return Ok(None);
        };
        let _write_guard = self.write_lock.lock().await;
''')]),
('del-precheck', 'C04', [('del.rs', '''        // Only one write at a time: the root must not change until we append
        let _write_guard = self.write_lock.lock().await;
        let Some(root) = self.get_root(false).await? else {
            return Ok(None);
        };

        let (matched, path) = nearest_node(root.clone(), key).await?;

        let Some(seq) = matched else {
            return Ok(None);
        };

        // run user provided `cas` function
        {
            let len = path.len();
            let (node, index) = &path[len - 1];
            let kv = node.read().await.get_key_value(*index).await?;
            if !compare_and_swap(&kv) {
                return Ok(Some((false, seq)));
            }
        }
''', '''        let Some(root) = self.get_root(false).await? else {
            return Ok(None);
        };

        let (matched, path) = nearest_node(root.clone(), key).await?;

        let Some(seq) = matched else {
            return Ok(None);
        };

        // run user provided `cas` function
        {
            let len = path.len();
            let (node, index) = &path[len - 1];
            let kv = node.read().await.get_key_value(*index).await?;
            if !compare_and_swap(&kv) {
                return Ok(Some((false, seq)));
            }
        }
        let _write_guard = self.write_lock.lock().await;
        let Some(root) = self.get_root(false).await? else {
            return Ok(None);
        };
        let (matched, path) = nearest_node(root.clone(), key).await?;
        let Some(seq) = matched else {
            return Ok(None);
        };
''')]),
('cas-next-empty-value', 'C04', [('put.rs', '''            value: value.map(|v| v.to_vec()),
        };

        let matched''', '''            value: value.filter(|v| !v.is_empty()).map(|v| v.to_vec()),
        };

        let matched''')]),
('cas-old-root-none', 'C04', [('put.rs', '''            let old_key_data = if matched.is_some() {''', '''            let old_key_data = if matched.is_some() && seq > 2 {''')]),
('rotate-eager', 'C05 C06', [('del.rs', '''min_keys(order) < donor_child.read().await.keys.len();''', '''min_keys(order) < donor_child.read().await.keys.len() + donor_child.read().await.n_children().await / 5;''')]),
('rotate-right-first-internal', 'C06', [('del.rs', '''    if let Some(res) = Left
        .maybe_rotate(''', '''    let sides = if deficient_child.read().await.is_leaf().await {
        [Left, Right]
    } else {
        [Right, Left]
    };
    if let Some(res) = sides[0]
        .maybe_rotate('''), ('del.rs', '''    if let Some(res) = Right
        .maybe_rotate(''', '''    if let Some(res) = sides[1]
        .maybe_rotate('''),]),
('root-collapse-leaf-only', 'C05 C06', [('del.rs', '''            && father_with_repaired_child.read().await.n_children().await == 1
''', '''            && father_with_repaired_child.read().await.n_children().await == 1
            && deficient_index == 0
''')]),
('replacement-deeper', 'C06', [('del.rs', '''if num_left_keys < num_right_keys {''', '''if num_left_keys < num_right_keys && num_right_keys > 4 {''')]),
('propagate-skip-same', 'C05 C06', [('put.rs', '''        wchildren!(node)[index] = cur_child;
        cur_child = changes.add_node(node);''', '''        let at = index.min(7);
        wchildren!(node)[at] = cur_child;
        cur_child = changes.add_node(node);''')]),
('header-on-nonempty', 'C07', [('tree.rs', '''        if self.blocks.read().await.info().await.length != 0 {''', '''        if self.blocks.read().await.info().await.length > 1 {''')]),
('header-unlocked', 'C07 C03', [('tree.rs', '''        let _write_guard = self.write_lock.lock().await;
        self.create_header_unlocked(metadata).await''', '''        self.create_header_unlocked(metadata).await''')]),
('header-race-info', 'C07', [('tree.rs', '''        let _write_guard = self.write_lock.lock().await;
        self.create_header_unlocked(metadata).await''', '''        if self.version().await != 0 {
            return Err(HyperbeeError::HeaderAlreadyExists);
        }
        let _write_guard = self.write_lock.lock().await;
        let header = Header { protocol: PROTOCOL.to_string(), metadata };
        self.blocks.read().await.append(&header.encode_to_vec()).await''')]),
('trav-min-strict-internal', 'C08', [('traverse.rs', '''            if !conf.reversed {
                key_index + step_by
            } else {
                // reversed''', '''            if !conf.reversed {
                key_index + 2
            } else {
                // reversed''')]),
('trav-stop-reversed', 'C08', [('traverse.rs', '''        if is_leaf {
            (1, start + 1)
        } else {
            (0, start + 1)
        }''', '''        if is_leaf || start == n_keys * 2 {
            (1, start + 1)
        } else {
            (0, start + 1)
        }''')]),
('trav-early-end', 'C08', [('traverse.rs', '''                        if !self.config.in_bounds(&res.key) {''', '''                        if !self.config.in_bounds(&res.key) || (self.config.reversed && self.config.min_value == res.key[..]) {''')]),
('trav-error-end', 'C09', [('traverse.rs', '''                    Err(e) => {
                        // Push error into stream
                        return Poll::Ready(Some((
                            Err(HyperbeeError::GetChildInTraverseError(Box::new(e))),
                            self.root.clone(),
                        )));''', '''                    Err(HyperbeeError::CoreMethodsError(_)) => return Poll::Ready(None),
                    Err(e) => {
                        // Push error into stream
                        return Poll::Ready(Some((
                            Err(HyperbeeError::GetChildInTraverseError(Box::new(e))),
                            self.root.clone(),
                        )));''')]),
('trav-child-no-wake', 'C09 C14', [('traverse.rs', '''                // go on with the child stream
                cx.waker().wake_by_ref();
            }''', '''            }''')]),
('trav-iter-no-wake', 'C09 C14', [('traverse.rs', '''                    Poll::Pending => return Poll::Pending,
                },
            },
        };''', '''                    Poll::Pending => {
                        self.iter_fut = None;
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                },
            },
        };''')]),
('sub-no-double-prefix', 'C10', [('prefixed.rs', '''macro_rules! with_key_prefix {
    ($self:ident, $key:expr) => {
        &[&$self.prefix, &$self.conf.seperator, $key].concat()
    };
}''', '''macro_rules! with_key_prefix {
    ($self:ident, $key:expr) => {
        &$self.full_key($key)
    };
}
impl Prefixed {
    fn full_key(&self, key: &[u8]) -> Vec<u8> {
        let start = [&self.prefix[..], &self.conf.seperator[..]].concat();
        if !start.is_empty() && key.starts_with(&start) {
            return key.to_vec();
        }
        [&start[..], key].concat()
    }
}''')]),
('sub-end-one-ff', 'C10', [('prefixed.rs', '''    match prefix.iter().rposition(|byte| *byte != u8::MAX) {
        Some(index) => Finite(increment_bytes(&prefix[..=index])),
        None => Infinite(Positive),
    }''', '''    match prefix.split_last() {
        Some((&u8::MAX, rest)) => Finite(increment_bytes(rest)),
        Some(_) => Finite(increment_bytes(prefix)),
        None => Infinite(Positive),
    }''')]),
('sub-empty-prefix-raw', 'C10', [('prefixed.rs', '''macro_rules! with_key_prefix {
    ($self:ident, $key:expr) => {
        &[&$self.prefix, &$self.conf.seperator, $key].concat()
    };
}''', '''macro_rules! with_key_prefix {
    ($self:ident, $key:expr) => {
        &if $self.prefix.is_empty() {
            $key.to_vec()
        } else {
            [&$self.prefix, &$self.conf.seperator, $key].concat()
        }
    };
}''')]),
('sub-del-cas-parent', 'C10 C04', [('prefixed.rs', '''        self.tree
            .read()
            .await
            .del_compare_and_swap(prefixed_key, cas)
            .await''', '''        self.tree
            .read()
            .await
            .del_compare_and_swap(prefixed_key, |kv| {
                let mut kv = kv.clone();
                kv.key.drain(..self.prefix.len() + self.conf.seperator.len());
                cas(&kv)
            })
            .await''')]),
('version-cached', 'C11 C03', [('tree.rs', '''    pub async fn version(&self) -> u64 {
        self.blocks.read().await.info().await.length
    }''', '''    pub async fn version(&self) -> u64 {
        static SEEN: std::sync::Mutex<Vec<(usize, u64)>> = std::sync::Mutex::new(vec![]);
        let me = Arc::as_ptr(&self.blocks) as usize;
        if self.write_lock.try_lock().is_err() {
            if let Some((_, n)) = SEEN.lock().unwrap().iter().find(|(p, _)| *p == me) {
                return *n;
            }
        }
        let n = self.blocks.read().await.info().await.length;
        let mut seen = SEEN.lock().unwrap();
        seen.retain(|(p, _)| *p != me);
        seen.push((me, n));
        n
    }''')]),
('stream-holds-write', 'C14 C11', [('tree.rs', '''        self.blocks
            .read()
            .await
            .add_stream(stream, is_initiator)
            .await''', '''        self.blocks
            .write()
            .await
            .add_stream(stream, is_initiator)
            .await''')]),
('no-odd-check', 'C12', [('blocks.rs', '''        if n_children % 2 != 0 {
            return malformed("incomplete reference to a child");
        }
        let n_children = n_children / 2;''', '''        let n_children = n_children / 2;''')]),
('no-count-check', 'C12', [('blocks.rs', '''        if n_children != 0 && (level.keys.is_empty() || n_children != level.keys.len() + 1) {
            return malformed("number of children does not fit number of keys");
        }''', '''        if n_children != 0 && level.keys.is_empty() {
            return malformed("number of children does not fit number of keys");
        }''')]),
('no-key-check', 'C12', [('blocks.rs', '''        if level.keys.iter().any(|key| *key == 0 || *key > seq) {
            return malformed("reference to an impossible key");
        }''', '''        if level.keys.iter().any(|key| *key > seq) {
            return malformed("reference to an impossible key");
        }''')]),
('no-child-order-check', 'C12', [('blocks.rs', '''child[0] == seq && child[1] > offset && child[1] < n_nodes;''', '''child[0] == seq && child[1] < n_nodes;''')]),
('no-empty-child-check', 'C12', [('lib.rs', '''        if node.read().await.keys.is_empty() {''', '''        if false && node.read().await.keys.is_empty() {''')]),
('decode-tolerant', 'C12', [('blocks.rs', '''        let index = YoloIndex::decode(buf)?;
''' if False else '''    let index = YoloIndex::decode(buf)?;
''', '''    let index = YoloIndex::decode(buf).unwrap_or_default();
''')]),
('append-detached', 'C13', [('blocks.rs', '''        self.append(&node_schema_buf).await
    }
}''', '''        let core = self.core.clone();
        let task = tokio::spawn(async move { core.append(&node_schema_buf).await });
        Ok(task.await.expect("append does not panic")?)
    }
}''')]),
('cache-write-across', 'C14 C13', [('blocks.rs', '''            let block_entry = self
                .get_from_core(seq)
                .await?
                .ok_or(HyperbeeError::NoBlockAtSeqError(*seq))?;
            let block_entry = Arc::new(RwLock::new(block_entry));
            self.cache.write().await.insert(*seq, block_entry.clone());''', '''            let mut cache = self.cache.write().await;
            let block_entry = self
                .get_from_core(seq)
                .await?
                .ok_or(HyperbeeError::NoBlockAtSeqError(*seq))?;
            let block_entry = Arc::new(RwLock::new(block_entry));
            cache.insert(*seq, block_entry.clone());
            let busy = self.core.info().await.length;
            trace!("length {busy}");''')]),
('lock-upgrade', 'C14', [('tree.rs', '''        let blocks = self.blocks.read().await;
        let version = self.version().await;
        if version <= 1 {
            if version == 0 && ensure_header {
                self.ensure_header().await?;
            }''', '''        let mut blocks = self.blocks.read().await;
        let version = self.version().await;
        if version <= 1 {
            if version == 0 && ensure_header {
                drop(blocks);
                drop(self.blocks.write().await);
                blocks = self.blocks.read().await;
                self.ensure_header().await?;
            }''')]),
('c-no-shrink', 'C15', [('external.rs', '''    vec.shrink_to_fit();
    assert!(vec.len() == vec.capacity());
''', '''    vec.reserve(0);
''')]),
('c-block-on', 'C15', [('external.rs', '''    rt.spawn(async move {
        match hb.get(&rkey).await {''', '''    rt.block_on(async move {
        match hb.get(&rkey).await {''')]),
('c-error-as-absent', 'C15', [('external.rs', '''                unsafe {
                    callback(-1, error_msg, 0, ptr::null_mut(), 0);
                }''', '''                let code = if e.to_string().contains("block at") { 0 } else { -1 };
                unsafe {
                    callback(code, error_msg, 0, ptr::null_mut(), 0);
                }''')]),
('c-nul-key', 'C15', [('external.rs', '''    let rkey = vec_from_c_vec(key_buff, key_size);
''', '''    let mut rkey = vec_from_c_vec(key_buff, key_size);
    if rkey.last() == Some(&0) {
        rkey.pop();
    }
''')]),
('c-error-msg-dangling', 'C15', [('external.rs', '''                let error_msg = CString::new(e.to_string().replace('\\0', " "))
                    .unwrap()
                    .into_raw();
                unsafe {
                    callback(-1, error_msg, 0, ptr::null_mut(), 0);
                }''', '''                let error_msg = CString::new(e.to_string().replace('\\0', " ")).unwrap();
                unsafe {
                    callback(-1, error_msg.as_ptr().cast_mut(), 0, ptr::null_mut(), 0);
                }''')]),
('uni-empty-none', 'C16', [('ffi.rs', '''impl Gotten {
    fn new(seq: u64, value: Option<Vec<u8>>) -> Self {''', '''impl Gotten {
    fn new(seq: u64, value: Option<Vec<u8>>) -> Self {
        let value = value.filter(|v| !v.is_empty());''')]),
('uni-sub-default-sep', 'C16', [('ffi.rs', '''        let rust_prefixed = self.rust_hyperbee.read().await.sub(prefix, config);''', '''        let config = if config.seperator.is_empty() { RustPrefixedConfig::default() } else { config };
        let rust_prefixed = self.rust_hyperbee.read().await.sub(prefix, config);''')]),
('uni-putten-same', 'C16', [('ffi.rs', '''impl Putten {
    fn new(old_seq: Option<u64>, new_seq: u64) -> Self {''', '''impl Putten {
    fn new(old_seq: Option<u64>, new_seq: u64) -> Self {
        let old_seq = old_seq.filter(|old| old + 1 < new_seq);''')]),
('height-from-last', 'C19', [('lib.rs', '''            let mut cur_child = self.get_child(0).await?;
            loop {
                out += 1;
                if cur_child.read().await.n_children().await == 0 {
                    return Ok(out);
                }
                let next_child = cur_child.read().await.get_child(0).await?;
                cur_child = next_child;
            }''', '''            let mut cur_child = self.get_child(0).await?;
            loop {
                out += 1;
                if cur_child.read().await.n_children().await == 0 {
                    return Ok(out);
                }
                let Ok(next_child) = cur_child.read().await.get_child(0).await else {
                    return Ok(out + 1);
                };
                cur_child = next_child;
            }''')]),
('print-two-roots', 'C19', [('tree.rs', '''        let out = crate::traverse::print(root).await?;''', '''        if self.height().await? == 1 {
            let root = self.get_root(false).await?.ok_or(HyperbeeError::NoRootError)?;
            return crate::traverse::print(root).await;
        }
        let out = crate::traverse::print(root).await?;''')]),
('print-depth-of-newest', 'C19', [('traverse.rs', '''        out += &LEADER.repeat(starting_height.saturating_sub(h));''', '''        out += &LEADER.repeat(starting_height.saturating_sub(h).min(2));''')]),
('debug-lock-unwrap', 'C19', [('lib.rs', '''            Err(_) => write!(f, "<locked>"),''', '''            Err(e) => panic!("{e}"),''')]),
]
