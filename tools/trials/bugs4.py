# Trial bugs near C20 to C22.
BUGS = [
('close-forgets', 'C20', [('external.rs', '''    let hb = from_c(hb);
    drop(ManuallyDrop::<Box<Hyperbee>>::into_inner(hb));''', '''    let _hb = from_c(hb);''')]),
('append-task-waits', 'C20', [('blocks.rs', '''    pub async fn append(&self, value: &[u8]) -> Result<AppendOutcome, HyperbeeError> {
        Ok(self.core.append(value).await?)
    }''', '''    pub async fn append(&self, value: &[u8]) -> Result<AppendOutcome, HyperbeeError> {
        let core = self.core.clone();
        let out = self.core.append(value).await?;
        // keep an eye on what was appended
        let seen = out.length;
        tokio::spawn(async move {
            while core.info().await.length <= seen {
                tokio::task::yield_now().await;
            }
        });
        Ok(out)
    }''')]),
('get-verifies-header', 'C21', [('tree.rs', '''        let root = blocks
            .get(&(version - 1))
            .await?''', '''        blocks.get(&0).await?;
        let root = blocks
            .get(&(version - 1))
            .await?''')]),
('load-two', 'C21', [('blocks.rs', '''            self.cache.write().await.insert(*seq, block_entry.clone());
            Ok(block_entry)''', '''            self.cache.write().await.insert(*seq, block_entry.clone());
            // blocks are often used in the order they were written
            if seq % 2 == 0 && self.get_from_cache(&(seq + 1)).await.is_none() {
                if let Ok(Some(next)) = self.get_from_core(&(seq + 1)).await {
                    let next = Arc::new(RwLock::new(next));
                    self.cache.write().await.insert(seq + 1, next);
                }
            }
            Ok(block_entry)''')]),
('put-height', 'C21', [('put.rs', '''        let maybe_root = self.get_root(true).await?;
''', '''        let maybe_root = self.get_root(true).await?;
        if let Some(root) = &maybe_root {
            // the deepest path there can be
            let mut node = root.clone();
            while !node.read().await.is_leaf().await {
                let child = node.read().await.get_child(0).await?;
                node = child;
            }
        }
''')]),
('trav-next-child-ahead', 'C21', [('traverse.rs', '''    let child = node.read().await.get_child(index).await?;
    Ok(Traverse::new(child, config))''', '''    let child = node.read().await.get_child(index).await?;
    if !config.reversed && index + 1 < node.read().await.n_children().await {
        let _ = node.read().await.get_child(index + 1).await;
    }
    Ok(Traverse::new(child, config))''')]),
('donor-both', 'C21', [('del.rs', '''        let left_child = node.read().await.get_child(left_child_index).await?;
        let (_, left_path)''', '''        for i in 0..node.read().await.n_children().await {
            node.read().await.get_child(i).await?;
        }
        let left_child = node.read().await.get_child(left_child_index).await?;
        let (_, left_path)''')]),
('sub-traverse-checks-prefix', 'C21', [('prefixed.rs', '''        let stream = self.tree.read().await.traverse(bounded_conf).await?;
''', '''        // nothing to do for a prefix that is not used
        let _ = self.tree.read().await.get(&full_prefix).await?;
        let stream = self.tree.read().await.traverse(bounded_conf).await?;
''')]),
('trav-child-spin', 'C22', [('traverse.rs', '''            // waiting for next stream item to resolve
            return Poll::Pending;''', '''            // waiting for next stream item to resolve
            cx.waker().wake_by_ref();
            return Poll::Pending;''')]),
('get-waits-for-block', 'C22 C12', [('blocks.rs', '''            let block_entry = self
                .get_from_core(seq)
                .await?
                .ok_or(HyperbeeError::NoBlockAtSeqError(*seq))?;''', '''            let block_entry = loop {
                match self.get_from_core(seq).await? {
                    Some(block_entry) => break block_entry,
                    // not replicated yet
                    None => tokio::task::yield_now().await,
                }
            };''')]),
('write-lock-try', 'C22', [('del.rs', '''        let _write_guard = self.write_lock.lock().await;
        let Some(root)''', '''        let mut tries = 0;
        let _write_guard = loop {
            match self.write_lock.try_lock() {
                Ok(guard) => break guard,
                Err(_) if tries > 500 => break self.write_lock.lock().await,
                Err(_) => tries += 1,
            }
            tokio::task::yield_now().await;
        };
        let Some(root)''')]),
('ffi-try-read', 'C22', [('ffi.rs', '''        Ok(self
            .rust_hyperbee
            .read()
            .await
            .get(key)''', '''        while self.rust_hyperbee.try_write().is_err() {
            tokio::task::yield_now().await;
        }
        Ok(self
            .rust_hyperbee
            .read()
            .await
            .get(key)''')]),
]
