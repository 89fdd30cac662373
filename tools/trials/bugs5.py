# Trial bugs that need size, depth, unusual values or a rare combination.
BUGS = [
('value-64k', 'C01', [('put.rs', '''        let mut changes: Changes = Changes::new(seq, key, value);
        let mut cur_key''', '''        let mut changes: Changes = Changes::new(seq, key, value.map(|v| &v[..v.len().min(65535)]));
        let mut cur_key''')]),
('value-4k', 'C01 C06 C16', [('put.rs', '''        let mut changes: Changes = Changes::new(seq, key, value);
        let mut cur_key''', '''        let mut changes: Changes = Changes::new(seq, key, value.map(|v| &v[..v.len().min(4096)]));
        let mut cur_key''')]),
('key-255', 'C01 C10 C06', [('put.rs', '''        let mut changes: Changes = Changes::new(seq, key, value);
        let mut cur_key''', '''        let mut changes: Changes = Changes::new(seq, &key[..key.len().min(255)], value);
        let mut cur_key''')]),
('depth-3-propagate', 'C01 C05', [('put.rs', '''        wchildren!(node)[index] = cur_child;
        cur_child = changes.add_node(node);''', '''        if changes.nodes.len() < 3 {
            wchildren!(node)[index] = cur_child;
        }
        cur_child = changes.add_node(node);''')]),
('depth-4-propagate', 'C01 C05', [('put.rs', '''        wchildren!(node)[index] = cur_child;
        cur_child = changes.add_node(node);''', '''        if changes.nodes.len() < 4 {
            wchildren!(node)[index] = cur_child;
        }
        cur_child = changes.add_node(node);''')]),
('seq-16k', 'C05', [('blocks.rs', '''            let keys = level.keys.iter().map(|k| KeyValue::new(*k)).collect();''', '''            let keys = level.keys.iter().map(|k| KeyValue::new(*k & 0x3fff)).collect();''')]),
('seq-1k', 'C01 C05', [('blocks.rs', '''            let keys = level.keys.iter().map(|k| KeyValue::new(*k)).collect();''', '''            let keys = level.keys.iter().map(|k| KeyValue::new(*k & 0x3ff)).collect();''')]),
('seq-256', 'C01 C05', [('blocks.rs', '''            let keys = level.keys.iter().map(|k| KeyValue::new(*k)).collect();''', '''            let keys = level.keys.iter().map(|k| KeyValue::new(*k & 0xff)).collect();''')]),
('same-value-skips', 'C07 C06 C01', [('put.rs', '''            if !cas(old_key_data.as_ref(), &new_key_data) {''', '''            if let Some(old) = &old_key_data {
                if old.value == new_key_data.value && value.is_some() {
                    return Ok((matched, Some(old.seq)));
                }
            }
            if !cas(old_key_data.as_ref(), &new_key_data) {''')]),
('append-retry', 'C07 C02', [('blocks.rs', '''        Ok(self.core.append(value).await?)''', '''        match self.core.append(value).await {
            Ok(outcome) => Ok(outcome),
            // storage can fail for a moment
            Err(_) => Ok(self.core.append(value).await?),
        }''')]),
('root-fallback', 'C11 C02 C12', [('tree.rs', '''        let root = blocks
            .get(&(version - 1))
            .await?
            .read()''', '''        let block = match blocks.get(&(version - 1)).await {
            Ok(block) => block,
            Err(_) if version > 2 => blocks.get(&(version - 2)).await?,
            Err(e) => return Err(e),
        };
        let root = block
            .read()''')]),
('c-empty-value', 'C15', [('external.rs', '''            Ok(Some((seq, Some(value)))) => {''', '''            Ok(Some((seq, Some(value)))) if seq != 1 || !value.is_empty() => {''')]),
('c-forget-runtime', 'C15', [('external.rs', '''    let rt = from_c(rt);
    drop(ManuallyDrop::<Box<Runtime>>::into_inner(rt));''', '''    let rt = from_c(rt);
    forget(ManuallyDrop::<Box<Runtime>>::into_inner(rt));''')]),
('c-detached-get', 'C15', [('external.rs', '''    rt.spawn(async move {
        match hb.get''', '''    tokio::spawn(async move {
        match hb.get''')]),
('ffi-empty-separator', 'C16', [('ffi.rs', '''        let rust_prefixed = self.rust_hyperbee.read().await.sub(prefix, config);''', '''        let config = match config.seperator.is_empty() {
            true => RustPrefixedConfig::default(),
            false => config,
        };
        let rust_prefixed = self.rust_hyperbee.read().await.sub(prefix, config);''')]),
('opens-registry', 'C20', [('tree.rs', '''        let p: PathBuf = path_to_storage_dir.as_ref().to_owned();
''', '''        static OPEN: std::sync::Mutex<Vec<(PathBuf, SharedCore)>> = std::sync::Mutex::new(Vec::new());
        let p: PathBuf = path_to_storage_dir.as_ref().to_owned();
'''), ('tree.rs', '''        let hc = SharedCore::from_hypercore(HypercoreBuilder::new(storage).build().await?);
''', '''        let hc = SharedCore::from_hypercore(HypercoreBuilder::new(storage).build().await?);
        OPEN.lock().unwrap().push((p.clone(), hc.clone()));
''')]),
('cas-seq-before-header', 'C04', [('put.rs', '''        let maybe_root = self.get_root(true).await?;

        let seq = self.version().await;
''', '''        let next_seq = self.version().await;
        let maybe_root = self.get_root(true).await?;

        let seq = self.version().await;
'''), ('put.rs', '''            seq,
            key: key.to_vec(),
            value: value.map(|v| v.to_vec()),
        };''', '''            seq: next_seq,
            key: key.to_vec(),
            value: value.map(|v| v.to_vec()),
        };''')]),
('sub-cas-strips', 'C10', [('prefixed.rs', '''            .del_compare_and_swap(prefixed_key, cas)''', '''            .del_compare_and_swap(prefixed_key, |kv: &KeyValueData| {
                let mut kv = kv.clone();
                kv.key = key.to_vec();
                cas(&kv)
            })''')]),
('overwrite', 'C01 C16', [('tree.rs', 'Storage::new_disk(&p, false)', 'Storage::new_disk(&p, !p.join("oplog").exists())')]),
('overwrite-true', 'C01 C16', [('tree.rs', 'Storage::new_disk(&p, false)', 'Storage::new_disk(&p, true)')]),
('metadata-lost', 'C06 C07', [('tree.rs', '''            metadata,
        };
        let mut buf''', '''            metadata: metadata.filter(|m| !m.content_feed.as_ref().is_some_and(|c| c.is_empty())),
        };
        let mut buf''')]),
('key-bound', 'C12', [('blocks.rs', '*key > seq)', '*key > seq + 1)')]),
('trav-bounds-skip-value', 'C08 C10', [('traverse.rs', '''                        if !self.config.in_bounds(&res.key) {''', '''                        if res.value.is_some() && !self.config.in_bounds(&res.key) {''')]),
('trav-err-retry-forever', 'C09', [('traverse.rs', '''                    Err(e) => {
                        // Push error into stream
                        return Poll::Ready(Some((
                            Err(HyperbeeError::GetChildInTraverseError(Box::new(e))),''', '''                    Err(HyperbeeError::NoBlockAtSeqError(_)) => {
                        // not here: nothing to show
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                    Err(e) => {
                        // Push error into stream
                        return Poll::Ready(Some((
                            Err(HyperbeeError::GetChildInTraverseError(Box::new(e))),''')]),
('print-stops-at-err', 'C19', [('traverse.rs', '''        let k = key_data?.key;''', '''        let Ok(key_data) = key_data else { break };
        let k = key_data.key;''')]),
('height-of-last', 'C12 C19', [('lib.rs', '''                let next_child = cur_child.read().await.get_child(0).await?;''', '''                let last = cur_child.read().await.n_children().await - 1;
                let Ok(next_child) = cur_child.read().await.get_child(last).await else {
                    return Ok(out);
                };''')]),
]
# Must stay quiet
SAME = []
