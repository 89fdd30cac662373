# Edits that keep every property: caches, retries, other internal structure.
SAME = [
('cache-bounded', [('blocks.rs', '''            self.cache.write().await.insert(*seq, block_entry.clone());
            Ok(block_entry)''', '''            let mut cache = self.cache.write().await;
            while cache.len() >= 16 {
                cache.pop_first();
            }
            cache.insert(*seq, block_entry.clone());
            Ok(block_entry)''')]),
('no-cache', [('blocks.rs', '''            self.cache.write().await.insert(*seq, block_entry.clone());
            Ok(block_entry)''', '''            Ok(block_entry)''')]),
('read-retry', [('blocks.rs', '''        match self.core.get(*seq).await? {''', '''        let got = match self.core.get(*seq).await {
            Ok(got) => got,
            Err(_) => self.core.get(*seq).await?,
        };
        match got {''')]),
('key-value-one-get', [('lib.rs', '''        let key = self
            .blocks
            .read()
            .await
            .get(&seq)
            .await?
            .read()
            .await
            .key
            .clone();
        let value = self
            .blocks
            .read()
            .await
            .get(&seq)
            .await?
            .read()
            .await
            .value
            .clone();
        Ok(KeyValueData { seq, key, value })''', '''        let block = self.blocks.read().await.get(&seq).await?;
        let block = block.read().await;
        Ok(KeyValueData {
            seq,
            key: block.key.clone(),
            value: block.value.clone(),
        })''')]),
('get-by-index', [('tree.rs', '''        let (matched, path) = nearest_node(node, key).await?;
        if matched.is_some() {
            let (node, key_index) = path
                .last()
                .expect("Since `matched` was true, there must be at least one node in `path`");
            let kv = node.read().await.get_key_value(*key_index).await?;
            return Ok(Some((kv.seq, kv.value)));
        }
        Ok(None)''', '''        let (Some(seq), _) = nearest_node(node, key).await? else {
            return Ok(None);
        };
        let block = self.blocks.read().await.get(&seq).await?;
        let value = block.read().await.value.clone();
        Ok(Some((seq, value)))''')]),
('write-lock-sync-drop', [('put.rs', '''        let _ = self.blocks.read().await.add_changes(changes).await?;

        Ok((matched, Some(seq)))''', '''        let outcome = self.blocks.read().await.add_changes(changes).await?;
        drop(_write_guard);
        trace!("now at length {}", outcome.length);
        Ok((matched, Some(seq)))''')]),
]
SAME_PROPS = ['C01', 'C02', 'C03', 'C05', 'C07', 'C08', 'C09', 'C11', 'C12', 'C13', 'C14', 'C15', 'C19', 'C20', 'C21', 'C22']
