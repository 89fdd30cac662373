# Edits that keep the behaviour: every quick check must stay quiet.
SAME = [
('get-kv-once', [('lib.rs', '''        let key = self
            .blocks
            .read()
            .await
            .get(&seq)
            .await?
            .read()
            .await
            .key
            .clone();
        let value = self
            .blocks
            .read()
            .await
            .get(&seq)
            .await?
            .read()
            .await
            .value
            .clone();
        Ok(KeyValueData { seq, key, value })''', '''        let block = self
            .blocks
            .read()
            .await
            .get(&seq)
            .await?;
        let block = block.read().await;
        Ok(KeyValueData {
            seq,
            key: block.key.clone(),
            value: block.value.clone(),
        })''')]),
('nearest-node-iter', [('lib.rs', '''    let mut current_node = node;
    let mut out_path: NodePath = vec![];
    loop {
        let next_node = {
            let (matched, child_index) = get_index_of_key(current_node.clone(), key).await?;
            out_path.push((current_node.clone(), child_index));

            // found match or reached leaf
            if matched.is_some() || current_node.read().await.is_leaf().await {
                return Ok((matched, out_path));
            }

            // continue to next node
            current_node.read().await.get_child(child_index).await?
        };
        current_node = next_node;
    }''', '''    let mut out_path: NodePath = Vec::with_capacity(8);
    let mut current = Some(node);
    let mut found = None;
    while let Some(here) = current.take() {
        let (matched, child_index) = get_index_of_key(here.clone(), key).await?;
        let is_leaf = here.read().await.is_leaf().await;
        if matched.is_none() && !is_leaf {
            let guard = here.read().await;
            current = Some(guard.get_child(child_index).await?);
        }
        found = matched;
        out_path.push((here, child_index));
    }
    Ok((found, out_path))''')]),
('index-of-key-loop', [('lib.rs', '''        let n_keys = node.read().await.keys.len();
        if n_keys == 0 {
            break 'found n_keys;
        }
        let mut low = 0;
        let mut high = n_keys - 1;

        while low <= high {
            let mid = low + ((high - low) >> 1);''', '''        let n_keys = node.read().await.keys.len();
        let (mut low, mut end) = (0, n_keys);

        while low < end {
            let mid = low + (end - 1 - low) / 2;'''), ('lib.rs', '''                if mid == 0 {
                    break;
                }
                // look lower
                high = mid - 1;''', '''                // look lower
                end = mid;''')]),
('linear-search', [('lib.rs', '''        let n_keys = node.read().await.keys.len();
        if n_keys == 0 {
            break 'found n_keys;
        }
        let mut low = 0;
        let mut high = n_keys - 1;

        while low <= high {
            let mid = low + ((high - low) >> 1);
            let KeyValueData {
                seq,
                key: other_key,
                ..
            } = node.read().await.get_key_value(mid).await?;
''', '''        let mut low = 0;
        let n_keys = node.read().await.keys.len();
        for mid in 0..n_keys {
            let KeyValueData {
                seq,
                key: other_key,
                ..
            } = node.read().await.get_key_value(mid).await?;
'''), ('lib.rs', '''                if mid == 0 {
                    break;
                }
                // look lower
                high = mid - 1;''', '''                low = mid;
                break;''')]),
('cache-entry-api', [('blocks.rs', '''            let block_entry = Arc::new(RwLock::new(block_entry));
            self.cache.write().await.insert(*seq, block_entry.clone());
            Ok(block_entry)''', '''            let mut cache = self.cache.write().await;
            Ok(cache
                .entry(*seq)
                .or_insert_with(|| Arc::new(RwLock::new(block_entry)))
                .clone())''')]),
('no-cache', [('blocks.rs', '''            let block_entry = Arc::new(RwLock::new(block_entry));
            self.cache.write().await.insert(*seq, block_entry.clone());
            Ok(block_entry)''', '''            let block_entry = Arc::new(RwLock::new(block_entry));
            Ok(block_entry)''')]),
('bounded-cache', [('blocks.rs', '''            self.cache.write().await.insert(*seq, block_entry.clone());
''', '''            let mut cache = self.cache.write().await;
            if cache.len() >= 64 {
                cache.pop_first();
            }
            cache.insert(*seq, block_entry.clone());
            drop(cache);
''')]),
('decode-helper', [('blocks.rs', '''        match self.core.get(*seq).await? {
            Some(core_block) => {
                let node = NodeSchema::decode(&core_block[..])?;
                Ok(Some(BlockEntry::new(*seq, node)?))
            }
            None => Ok(None),
        }
    }
''', '''        let Some(core_block) = self.core.get(*seq).await? else {
            return Ok(None);
        };
        Self::decode_block(*seq, &core_block).map(Some)
    }

    fn decode_block(
        seq: u64,
        bytes: &[u8],
    ) -> Result<BlockEntry, HyperbeeError> {
        BlockEntry::new(seq, NodeSchema::decode(bytes)?)
    }
'''), ('blocks.rs', '''        let mut index_buf = Vec::with_capacity(index.encoded_len());
        YoloIndex::encode(&index, &mut index_buf).map_err(HyperbeeError::YoloIndexEncodingError)?;
''', '''        let index_buf = index.encode_to_vec();
'''), ('blocks.rs', '''        let mut node_schema_buf = Vec::with_capacity(node_schema.encoded_len());
        NodeSchema::encode(&node_schema, &mut node_schema_buf)
            .map_err(HyperbeeError::NodeEncodingError)?;
        self.append(&node_schema_buf).await''', '''        self.append(&node_schema.encode_to_vec()).await''')]),
('reorder-recursive', [('blocks.rs', '''    let root = &nodes[nodes.len() - 1];
    let mut child_stack = vec![];
    let mut out = vec![root.clone()];

    child_stack.append(&mut take_children_with_seq(root, seq).await);

    while let Some((node, child_index)) = child_stack.pop() {
        // Get the next child, update it's offset

        // The get the childs old offset, so we can get the node it points to
        let old_offset = node.read().await.children.children.read().await[child_index].offset;
        // The child's node is pushed into `out` so it's offset will be `out.len()`
        wchildren!(node)[child_index].offset = out.len() as u64;

        let childs_node = nodes[old_offset as usize].clone();
        // Push the child's node into the output
        out.push(childs_node.clone());
        // stage the child's nodes children to be reordered
        child_stack.append(&mut take_children_with_seq(&childs_node, seq).await);
    }
    out
}''', '''    let mut out = Vec::with_capacity(nodes.len());
    if let Some(root) = nodes.last() {
        reorder_below(seq, nodes, root.clone(), &mut out).await;
    }
    out
}

fn reorder_below<'a>(
    seq: u64,
    nodes: &'a [SharedNode],
    node: SharedNode,
    out: &'a mut Vec<SharedNode>,
) -> std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send + 'a>> {
    Box::pin(async move {
        out.push(node.clone());
        let mut in_this_block = take_children_with_seq(&node, seq).await;
        in_this_block.reverse();
        for (_, index) in in_this_block {
            let old_offset = {
                let node = node.read().await;
                let mut children = node.children.children.write().await;
                std::mem::replace(&mut children[index].offset, out.len() as u64)
            };
            reorder_below(seq, nodes, nodes[old_offset as usize].clone(), &mut *out).await;
        }
    })
}''')]),
('validate-iter', [('blocks.rs', '''            for i in (0..(level.children.len())).step_by(2) {
                children.push(Child::new(level.children[i], level.children[i + 1]));
            }
''', '''            children.extend(
                level
                    .children
                    .chunks_exact(2)
                    .map(|pair| Child::new(pair[0], pair[1])),
            );
'''), ('blocks.rs', '''        for child in level.children.chunks_exact(2) {
            let in_earlier_block = child[0] != 0 && child[0] < seq;
            let later_in_this_block = child[0] == seq && child[1] > offset && child[1] < n_nodes;
            if !in_earlier_block && !later_in_this_block {
                return malformed("reference to an impossible child");
            }
        }
''', '''        let possible = |child: &[u64]| match child[0].cmp(&seq) {
            std::cmp::Ordering::Less => child[0] != 0,
            std::cmp::Ordering::Equal => (offset + 1..n_nodes).contains(&child[1]),
            std::cmp::Ordering::Greater => false,
        };
        if !level.children.chunks_exact(2).all(possible) {
            return malformed("reference to an impossible child");
        }
''')]),
('get-tree-node-flat', [('blocks.rs', '''        let (keys, children) = self
            .nodes
            .get(
                usize::try_from(offset)
                    .map_err(|e| HyperbeeError::U64ToUsizeConversionError(offset, e))?,
            )
            .ok_or_else(|| {
                HyperbeeError::MalformedBlockError(self.seq, format!("no node at offset {offset}"))
            })?
            .clone();
        Ok(Arc::new(RwLock::new(Node::new(keys, children, blocks))))''', '''        let index = usize::try_from(offset)
            .map_err(|e| HyperbeeError::U64ToUsizeConversionError(offset, e))?;
        match self.nodes.get(index) {
            Some((keys, children)) => Ok(Arc::new(RwLock::new(Node::new(
                keys.to_vec(),
                children.to_vec(),
                blocks,
            )))),
            None => Err(HyperbeeError::MalformedBlockError(
                self.seq,
                format!("no node at offset {offset}"),
            )),
        }''')]),
('to-level-flat', [('lib.rs', '''        let mut children = vec![];
        for c in self.children.children.read().await.iter() {
            children.push(c.seq);
            children.push(c.offset);
        }
        yolo_index::Level {
            keys: self.keys.iter().map(|k| k.seq).collect(),
            children,
        }''', '''        let keys = self.keys.iter().map(|k| k.seq).collect();
        let guard = self.children.children.read().await;
        let children = guard.iter().flat_map(|c| [c.seq, c.offset]).collect();
        yolo_index::Level { keys, children }''')]),
('height-recursive', [('lib.rs', '''        if self.is_leaf().await {
            Ok(1)
        } else {
            let mut out = 1;
            let mut cur_child = self.get_child(0).await?;
            loop {
                out += 1;
                if cur_child.read().await.n_children().await == 0 {
                    return Ok(out);
                }
                let next_child = cur_child.read().await.get_child(0).await?;
                cur_child = next_child;
            }
        }''', '''        if self.is_leaf().await {
            return Ok(1);
        }
        let child = self.get_child(0).await?;
        let child = child.read().await;
        Ok(1 + Box::pin(child.height()).await?)''')]),
('put-helper-commit', [('put.rs', '''                    let child = changes.add_node(cur_node.clone());
                    if !path.is_empty() {
                        trace!("inserted into some child");
                        propagate_changes_up_tree(&mut changes, path, child).await;
                        let _ = self.blocks.read().await.add_changes(changes).await?;
                        return Ok((matched, Some(seq)));
                    };

                    let _ = self.blocks.read().await.add_changes(changes).await?;
                    return Ok((matched, Some(seq)));''', '''                    let child = changes.add_node(cur_node.clone());
                    propagate_changes_up_tree(&mut changes, path, child).await;
                    self.commit(changes).await?;
                    return Ok((matched, Some(seq)));'''), ('put.rs', '''        changes.add_node(new_root);
        let _ = self.blocks.read().await.add_changes(changes).await?;''', '''        changes.add_node(new_root);
        self.commit(changes).await?;'''), ('put.rs', '''impl Tree {
    #[tracing::instrument(level = "trace", skip(self, cas), ret)]''', '''impl Tree {
    pub(crate) async fn commit(&self, changes: Changes) -> Result<(), HyperbeeError> {
        let blocks = self.blocks.read().await;
        blocks.add_changes(changes).await.map(drop)
    }

    #[tracing::instrument(level = "trace", skip(self, cas), ret)]'''), ('del.rs', '''        self.blocks.read().await.add_changes(changes).await?;
        Ok(Some((true, seq)))''', '''        self.commit(changes).await?;
        Ok(Some((true, seq)))''')]),
('split-at', [('put.rs', '''        let left = Node::new(
            self.keys.splice(0..key_median_index, vec![]).collect(),
            self.children
                .children
                .write()
                .await
                .splice(0..children_median_index, vec![])
                .collect(),
            self.blocks.clone(),
        );
        let mid_key = self.keys.remove(0);
        let right = Node::new(
            self.keys.drain(..).collect(),
            self.children.children.write().await.drain(..).collect(),
            self.blocks.clone(),
        );''', '''        let right_keys = self.keys.split_off(key_median_index + 1);
        let mid_key = self.keys.pop().expect("a node that is split has keys");
        let mut children = self.children.children.write().await;
        let right_children = children.split_off(children_median_index);
        let left = Node::new(
            std::mem::take(&mut self.keys),
            std::mem::take(&mut *children),
            self.blocks.clone(),
        );
        drop(children);
        let right = Node::new(right_keys, right_children, self.blocks.clone());''')]),
('propagate-rev', [('put.rs', '''    let mut cur_child = new_child;
    loop {
        // this should add children to node
        // add node to changes, as root or node, and redo loop if not root
        let (node, index) = match path.pop() {
            None => break,
            Some(x) => x,
        };
        wchildren!(node)[index] = cur_child;
        cur_child = changes.add_node(node);
    }''', '''    let mut cur_child = new_child;
    path.reverse();
    for (node, index) in path {
        wchildren!(node)[index] = cur_child;
        cur_child = changes.add_node(node);
    }''')]),
('put-lock-in-helper', [('put.rs', '''        // Only one write at a time: `seq` and the root must not change until we append
        let _write_guard = self.write_lock.lock().await;
        // NB: do this before we call `version` because it can add the header block''', '''        let guard = self.write_lock.clone().lock_owned().await;
        let done = self.put_locked(key, value, cas).await;
        drop(guard);
        done
    }

    async fn put_locked(
        &self,
        key: &[u8],
        value: Option<&[u8]>,
        cas: impl FnOnce(Option<&KeyValueData>, &KeyValueData) -> bool,
    ) -> Result<(Option<u64>, Option<u64>), HyperbeeError> {
        // NB: do this before we call `version` because it can add the header block''')]),
('del-reads-both', [('del.rs', '''        let left_child = node.read().await.get_child(left_child_index).await?;
        let (_, left_path) = nearest_node(left_child, &InfiniteKeys::Positive).await?;
        let num_left_keys = left_path.last().unwrap().0.read().await.keys.len();

        let right_child = node.read().await.get_child(right_child_index).await?;
        let (_, right_path) = nearest_node(right_child, &InfiniteKeys::Negative).await?;
        let num_right_keys = right_path.last().unwrap().0.read().await.keys.len();
''', '''        let (left_path, right_path) = futures_lite::future::try_zip(
            async {
                let left_child = node.read().await.get_child(left_child_index).await?;
                nearest_node(left_child, &InfiniteKeys::Positive).await.map(|x| x.1)
            },
            async {
                let right_child = node.read().await.get_child(right_child_index).await?;
                nearest_node(right_child, &InfiniteKeys::Negative).await.map(|x| x.1)
            },
        )
        .await?;
        let num_left_keys = left_path.last().unwrap().0.read().await.keys.len();
        let num_right_keys = right_path.last().unwrap().0.read().await.keys.len();
''')]),
('repair-loop-kinds', [('del.rs', '''    if let Some(res) = Left
        .maybe_rotate(
            father.clone(),
            deficient_index,
            deficient_child.clone(),
            order,
            changes,
        )
        .await?
    {
        info!("rotated from left");
        return Ok(res);
    }
    if let Some(res) = Right
        .maybe_rotate(
            father.clone(),
            deficient_index,
            deficient_child.clone(),
            order,
            changes,
        )
        .await?
    {
        info!("rotated from right");
        return Ok(res);
    }
    if let Some(res) = Left
        .maybe_merge(
            father.clone(),
            deficient_index,
            deficient_child.clone(),
            changes,
        )
        .await?
    {
        info!("merged from left");
        return Ok(res);
    }
    if let Some(res) = Right
        .maybe_merge(
            father.clone(),
            deficient_index,
            deficient_child.clone(),
            changes,
        )
        .await?
    {
        info!("merged from right");
        return Ok(res);
    }
    panic!("this should never happen");''', '''    for side in [Left, Right] {
        let (f, c) = (father.clone(), deficient_child.clone());
        let rotated = side.maybe_rotate(f, deficient_index, c, order, changes).await?;
        if let Some(res) = rotated {
            info!("rotated from {side:?}");
            return Ok(res);
        }
    }
    for side in [Left, Right] {
        let (f, c) = (father.clone(), deficient_child.clone());
        if let Some(res) = side.maybe_merge(f, deficient_index, c, changes).await? {
            info!("merged from {side:?}");
            return Ok(res);
        }
    }
    unreachable!("a deficient child always has a neighbour");''')]),
('donor-index-checked', [('del.rs', '''            Left => match deficient_index == 0 {
                true => None,
                false => Some(deficient_index - 1),
            },
            Right => match deficient_index + 1 >= father.read().await.n_children().await {
                true => None,
                false => Some(deficient_index + 1),
            },''', '''            Left => deficient_index.checked_sub(1),
            Right => {
                let n_children = father.read().await.n_children().await;
                Some(deficient_index + 1).filter(|index| *index < n_children)
            }''')]),
('get-via-map', [('tree.rs', '''        let node = match self.get_root(false).await? {
            None => return Ok(None),
            Some(node) => node,
        };
        let (matched, path) = nearest_node(node, key).await?;
        if matched.is_some() {
            let (node, key_index) = path
                .last()
                .expect("Since `matched` was true, there must be at least one node in `path`");
            let kv = node.read().await.get_key_value(*key_index).await?;
            return Ok(Some((kv.seq, kv.value)));
        }
        Ok(None)''', '''        let Some(root) = self.get_root(false).await? else {
            return Ok(None);
        };
        let (matched, mut path) = nearest_node(root, key).await?;
        let (Some(_), Some((node, key_index))) = (matched, path.pop()) else {
            return Ok(None);
        };
        let kv = node.read().await.get_key_value(key_index).await?;
        Ok(Some((kv.seq, kv.value)))''')]),
('get-by-block', [('tree.rs', '''        if matched.is_some() {
            let (node, key_index) = path
                .last()
                .expect("Since `matched` was true, there must be at least one node in `path`");
            let kv = node.read().await.get_key_value(*key_index).await?;
            return Ok(Some((kv.seq, kv.value)));
        }
        Ok(None)''', '''        drop(path);
        let Some(seq) = matched else {
            return Ok(None);
        };
        let blocks = self.blocks.read().await;
        let block = blocks.get(&seq).await?;
        let value = block.read().await.value.clone();
        Ok(Some((seq, value)))''')]),
('root-helper', [('tree.rs', '''        let blocks = self.blocks.read().await;
        let version = self.version().await;
        if version <= 1 {
            if version == 0 && ensure_header {
                self.ensure_header().await?;
            }
            return Ok(None);
        }
        let root = blocks
            .get(&(version - 1))
            .await?
            .read()
            .await
            .get_tree_node(0, self.blocks.clone())?;
        Ok(Some(root))
    }''', '''        match self.version().await {
            0 => {
                if ensure_header {
                    self.ensure_header().await?;
                }
                Ok(None)
            }
            1 => Ok(None),
            version => self.root_at(version - 1).await.map(Some),
        }
    }

    /// The root of the tree as of block `seq`
    async fn root_at(&self, seq: u64) -> Result<Shared<Node>, HyperbeeError> {
        let block = {
            let blocks = self.blocks.read().await;
            blocks.get(&seq).await?
        };
        let block = block.read().await;
        block.get_tree_node(0, self.blocks.clone())
    }''')]),
('traverse-flat', [('traverse.rs', '''async fn get_n_keys_and_children(node: SharedNode) -> (usize, usize) {
    (
        node.read().await.keys.len(),
        node.read().await.n_children().await,
    )
}''', '''async fn get_n_keys_and_children(node: SharedNode) -> (usize, usize) {
    let node = node.read().await;
    let n_children = node.n_children().await;
    (node.keys.len(), n_children)
}'''), ('traverse.rs', '''                if child_index == 0 {
                    0
                } else {
                    child_index - 1
                }''', '''                child_index.saturating_sub(1)'''), ('traverse.rs', '''        let above_min = match self
            .min_value
            .partial_cmp(value)
            .expect("partial_cmp never returns none")
        {
            std::cmp::Ordering::Greater => false,
            std::cmp::Ordering::Equal => self.min_inclusive,
            std::cmp::Ordering::Less => true,
        };''', '''        let above_min =
            self.min_value < *value || (self.min_inclusive && self.min_value == *value);''')]),
('traverse-poll-loop', [('traverse.rs', '''        // if we have an active child stream yield values from it if ready
        if let Some(stream) = &mut self.child_stream {
            if let Poll::Ready(out_opt) = stream.poll_next(cx) {
                match out_opt {
                    None => self.child_stream = None,
                    Some(out) => return Poll::Ready(Some(out)),
                }
            }
            // waiting for next stream item to resolve
            return Poll::Pending;
        }
''', '''        // if we have an active child stream yield values from it if ready
        if let Some(stream) = &mut self.child_stream {
            match Pin::new(stream).poll_next(cx) {
                Poll::Ready(None) => self.child_stream = None,
                ready_or_pending => return ready_or_pending,
            }
        }
''')]),
('traverse-unfold', [('tree.rs', '''        let stream = Traverse::new(root, conf);
        Ok(stream.map(move |kv_and_node| kv_and_node.0))''', '''        let traverse = Traverse::new(root, conf);
        Ok(futures_lite::stream::unfold(traverse, |mut traverse| async move {
            let (kv, _node) = traverse.next().await?;
            Some((kv, traverse))
        })
        .boxed_local())''')]),
('end-of-prefix-loop', [('prefixed.rs', '''    match prefix.iter().rposition(|byte| *byte != u8::MAX) {
        Some(index) => Finite(increment_bytes(&prefix[..=index])),
        None => Infinite(Positive),
    }''', '''    let mut end = prefix.to_vec();
    while let Some(last) = end.pop() {
        if last < u8::MAX {
            end.push(last + 1);
            return Finite(end);
        }
    }
    Infinite(Positive)'''), ('prefixed.rs', '''        Ok(stream.map(move |res| {
            let len_drain = len_drain;
            let stripped_kv = res.map(|mut x| {
                x.key.drain(..len_drain);
                x
            });
            stripped_kv
        }))''', '''        Ok(stream.map(move |res| {
            let mut kv = res?;
            kv.key = kv.key.split_off(len_drain);
            Ok(kv)
        }))''')]),
('prefix-fn', [('prefixed.rs', '''        let prefixed_key: &[u8] = with_key_prefix!(self, key);
        self.tree.read().await.get(prefixed_key).await''', '''        let tree = self.tree.read().await.clone();
        tree.get(&self.full_key(key)).await'''), ('prefixed.rs', '''        let prefixed_key: &[u8] = with_key_prefix!(self, key);
        self.tree.read().await.put(prefixed_key, value).await''', '''        let prefixed_key = self.full_key(key);
        let tree = self.tree.read().await.clone();
        tree.put(&prefixed_key, value).await'''), ('prefixed.rs', '''impl Prefixed {
    pub(crate) fn new(''', '''impl Prefixed {
    fn full_key(&self, key: &[u8]) -> Vec<u8> {
        let mut out = Vec::with_capacity(self.prefix.len() + self.conf.seperator.len() + key.len());
        out.extend_from_slice(&self.prefix);
        out.extend_from_slice(&self.conf.seperator);
        out.extend_from_slice(key);
        out
    }

    pub(crate) fn new(''')]),
('sub-no-bounds', [('prefixed.rs', '''            Infinite(Positive) => (end_of_prefix(&full_prefix), false),''', '''            Infinite(Positive) => match end_of_prefix(&full_prefix) {
                Finite(end) => (Finite(end), false),
                unbounded => (unbounded, true),
            },''')]),
('hb-lock-dance', [('hb.rs', '''        self.tree.read().await.get(key).await''', '''        let tree = self.tree.read().await;
        let gotten = tree.get(key).await?;
        Ok(gotten)'''), ('hb.rs', '''        self.tree.read().await.del(key).await''', '''        let tree = Tree::clone(&*self.tree.read().await);
        tree.del(key).await''')]),
('ffi-helper', [('ffi.rs', '''        let (old_seq, new_seq) = self
            .rust_hyperbee
            .read()
            .await
            .put(key, value.as_deref())
            .await?;
        Ok(Putten::new(old_seq, new_seq))''', '''        let hb = self.rust_hyperbee.read().await;
        hb.put(key, value.as_deref())
            .await
            .map(|(old_seq, new_seq)| Putten { old_seq, new_seq })'''), ('external.rs', '''    rt.spawn(async move {
        match hb.get(&rkey).await {
            Ok(Some((seq, Some(value)))) => {
                let (vec, size) = c_vec_from_vec(value);
                let no_error_msg = CString::new("").unwrap().into_raw();
                unsafe {
                    callback(0, no_error_msg, seq, vec, size);
                }
            }
            Ok(not_a_value) => {
                // seq == 0: the key was not found, otherwise it has no value
                let seq = not_a_value.map_or(0, |(seq, _)| seq);
                let no_error_msg = CString::new("").unwrap().into_raw();
                unsafe {
                    callback(0, no_error_msg, seq, ptr::null_mut(), 0);
                }
            }
            Err(e) => {
                let error_msg = CString::new(e.to_string().replace('\\0', " "))
                    .unwrap()
                    .into_raw();
                unsafe {
                    callback(-1, error_msg, 0, ptr::null_mut(), 0);
                }
            }
        };
    });''', '''    let task = async move {
        let (code, message, seq, value) = match hb.get(&rkey).await {
            Ok(Some((seq, value))) => (0, String::new(), seq, value),
            Ok(None) => (0, String::new(), 0, None),
            Err(e) => (-1, e.to_string().replace('\\0', " "), 0, None),
        };
        let message = CString::new(message).unwrap_or_default().into_raw();
        let (buff, len) = match value {
            Some(value) => c_vec_from_vec(value),
            None => (ptr::null_mut(), 0),
        };
        unsafe { callback(code, message, seq, buff, len) };
    };
    drop(rt.spawn(task));'''), ('external.rs', '''pub fn c_vec_from_vec<T: std::fmt::Debug>(mut vec: Vec<T>) -> (*mut T, size_t) {
    vec.shrink_to_fit();
    assert!(vec.len() == vec.capacity());
    let ptr = vec.as_mut_ptr();
    let len = vec.len();
    forget(vec);
    (ptr, len)
}''', '''pub fn c_vec_from_vec<T: std::fmt::Debug>(vec: Vec<T>) -> (*mut T, size_t) {
    let boxed: ManuallyDrop<Box<[T]>> = ManuallyDrop::new(vec.into_boxed_slice());
    (boxed.as_ptr().cast_mut(), boxed.len())
}'''), ('external.rs', '''    mem::{forget, ManuallyDrop},''', '''    mem::ManuallyDrop,''')]),
('external-block-in-place', [('external.rs', '''    let rt = from_c(rt);
    let rkey''', '''    let rt = unsafe { &*rt };
    let rkey''') if False else ('external.rs', '''    let rkey = vec_from_c_vec(key_buff, key_size);
''', '''    let rkey = vec_from_c_vec(key_buff, key_size);
    let hb: &'static Hyperbee = unsafe { &*(&**hb as *const Hyperbee) };
'''), ('external.rs', '''    let bytes = unsafe { slice::from_raw_parts(bytes, bytes_length) };
    Vec::from(bytes)''', '''    let mut out = vec![0; bytes_length];
    unsafe { ptr::copy_nonoverlapping(bytes, out.as_mut_ptr(), bytes_length) };
    out''')]),
('rwlock-blocks-less', [('lib.rs', '''        let block = self.blocks.read().await.get(&seq).await?;
        let node = block
            .read()
            .await
            .get_tree_node(offset, self.blocks.clone())?;''', '''        let block = {
            let blocks = self.blocks.read().await;
            let found = blocks.get(&seq).await;
            drop(blocks);
            found?
        };
        let block = block.read().await;
        let node = block.get_tree_node(offset, self.blocks.clone())?;
        drop(block);''')]),
('children-std-lock-free', [('lib.rs', '''        let replace_split_child = match new_children.is_empty() {
            true => 0,
            false => 1,
        };''', '''        let replace_split_child = 1;'''), ('lib.rs', '''    for (node, index) in path {
        let copied = node.read().await.copy().await;
        out.push((copied, index));
    }
    out''', '''    let mut nodes = path.into_iter();
    while let Some((node, index)) = nodes.next() {
        let guard = node.read().await;
        out.push((guard.copy().await, index));
    }
    out''')]),
('changes-offset', [('changes.rs', '''        let offset: u64 = self
            .nodes
            .len()
            .try_into()
            .expect("this would happen when sizeof(usize) < sizeof(u64), lkey on 32bit. And when the offset (which is on the order of the height of the tree) is greater than usize::MAX. Well that would be crazy. We should Probably have a check for usize >= u64 on startup... or something... TODO");
        self.nodes.push(node.clone());
        Child::new(self.seq, offset)''', '''        self.nodes.push(node);
        Child::new(self.seq, self.nodes.len() as u64 - 1)''')]),
('header-inline', [('tree.rs', '''        match self.create_header_unlocked(None).await {
            Ok(_) => Ok(true),
            Err(e) => match e {
                HyperbeeError::HeaderAlreadyExists => Ok(false),
                other_errors => Err(other_errors),
            },
        }''', '''        let created = self.create_header_unlocked(None).await;
        if matches!(created, Err(HyperbeeError::HeaderAlreadyExists)) {
            return Ok(false);
        }
        created.map(|_| true)'''), ('tree.rs', '''        let mut buf = Vec::with_capacity(header.encoded_len());
        header
            .encode(&mut buf)
            .map_err(HyperbeeError::HeaderEncodingError)?;
        self.blocks.read().await.append(&buf).await''', '''        let mut buf = vec![];
        header
            .encode(&mut buf)
            .map_err(HyperbeeError::HeaderEncodingError)?;
        let blocks = self.blocks.read().await;
        blocks.append(&buf).await''')]),
('prefetch-siblings', [('lib.rs', '''            // continue to next node
            current_node.read().await.get_child(child_index).await?
        };''', '''            // continue to next node
            let here = current_node.read().await;
            let next = here.get_child(child_index).await?;
            tokio::task::yield_now().await;
            next
        };''')]),
('print-fmt', [('traverse.rs', '''        let h = node.read().await.height().await?;
        out += &LEADER.repeat(starting_height.saturating_sub(h));
        let k = key_data?.key;
        let decoded_k = String::from_utf8(k)?;
        out += &decoded_k;
        out += "\\n";''', '''        let h = node.read().await.height().await?;
        let indent = LEADER.repeat(starting_height.saturating_sub(h));
        let key = String::from_utf8(key_data?.key)?;
        out.push_str(&format!("{indent}{key}\\n"));''')]),
('validate-conf-if', [('traverse.rs', '''        (Some(Finite(min)), Some(Finite(max))) => {
            if max < min {
                return Err(format!(
                    "Minimum value [{min:?}] is greater than max [{max:?}]"
                ));
            }
            if min == max {
                #[allow(clippy::match_like_matches_macro)]
                if match (builder.min_inclusive, builder.max_inclusive) {
                    (Some(false), _) => true,
                    (_, Some(false)) => true,
                    _ => false,
                } {
                    return Err(format!(
                        "Minimum and maximum are equal [{min:?}] but the bounds are not both both inclusive min_inclusive = [{:?}] max_inclusive = [{:?}]",
                        builder.min_inclusive,
                        builder.max_inclusive
                    ));
                }
                return Ok(());
            }
        }''', '''        (Some(Finite(min)), Some(Finite(max))) if min > max => {
            return Err(format!("[{min:?}] is above [{max:?}]"));
        }
        (Some(Finite(min)), Some(Finite(max))) => {
            let inclusive =
                builder.min_inclusive.unwrap_or(true) && builder.max_inclusive.unwrap_or(true);
            if min == max && !inclusive {
                return Err("empty range".to_string());
            }
        }''')]),
]
