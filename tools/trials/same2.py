# More edits that keep the behaviour, near what C20 to C22 look at.
SAME_PROPS = 'C08 C09 C13 C14 C15 C16 C19 C20 C21 C22'.split()
SAME = [
('trav-loop', [('traverse.rs', '''                None => {
                    self.n_keys_and_children_fut =
                        Some(Box::pin(get_n_keys_and_children(self.root.clone())));
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }''', '''                None => {
                    self.n_keys_and_children_fut =
                        Some(Box::pin(get_n_keys_and_children(self.root.clone())));
                    return self.poll_next(cx);
                }'''), ('traverse.rs', '''                    let iter_fut = make_child_key_index_iter(conf, node, n_keys, n_children);
                    self.iter_fut = Some(Box::pin(iter_fut));
                    cx.waker().wake_by_ref();
                    return Poll::Pending;''', '''                    let iter_fut = make_child_key_index_iter(conf, node, n_keys, n_children);
                    self.iter_fut = Some(Box::pin(iter_fut));
                    return self.poll_next(cx);'''), ('traverse.rs', '''                cx.waker().wake_by_ref();
                // start waiting for next_key or next_child
                return Poll::Pending;''', '''                // start waiting for next_key or next_child
                return self.poll_next(cx);''')]),
('trav-key-ready', [('traverse.rs', '''            match key_fut.poll(cx) {
                Poll::Ready(out) => {
                    if let Ok(res) = &out {
                        if !self.config.in_bounds(&res.key) {
                            cx.waker().wake_by_ref();
                            return Poll::Ready(None);
                        }
                    }
                    self.next_key = None;
                    return Poll::Ready(Some((out, self.root.clone())));
                }
                Poll::Pending => return Poll::Pending,
            }''', '''            let out = std::task::ready!(key_fut.poll(cx));
            let outside = matches!(&out, Ok(kv) if !self.config.in_bounds(&kv.key));
            if outside {
                cx.waker().wake_by_ref();
                return Poll::Ready(None);
            }
            self.next_key = None;
            return Poll::Ready(Some((out, self.root.clone())));''')]),
('trav-stay-ended', [('traverse.rs', '''                        if !self.config.in_bounds(&res.key) {
                            cx.waker().wake_by_ref();
                            return Poll::Ready(None);
                        }''', '''                        if !self.config.in_bounds(&res.key) {
                            // nothing else is in bounds
                            self.next_key = None;
                            self.iter = Some(Box::pin(0..0));
                            cx.waker().wake_by_ref();
                            return Poll::Ready(None);
                        }''')]),
('del-right-first', [('del.rs', '''        let left_child = node.read().await.get_child(left_child_index).await?;
        let (_, left_path) = nearest_node(left_child, &InfiniteKeys::Positive).await?;
        let num_left_keys = left_path.last().unwrap().0.read().await.keys.len();

        let right_child = node.read().await.get_child(right_child_index).await?;
        let (_, right_path) = nearest_node(right_child, &InfiniteKeys::Negative).await?;
        let num_right_keys = right_path.last().unwrap().0.read().await.keys.len();
''', '''        let right_child = node.read().await.get_child(right_child_index).await?;
        let (_, right_path) = nearest_node(right_child, &InfiniteKeys::Negative).await?;
        let num_right_keys = right_path.last().unwrap().0.read().await.keys.len();

        let left_child = node.read().await.get_child(left_child_index).await?;
        let (_, left_path) = nearest_node(left_child, &InfiniteKeys::Positive).await?;
        let num_left_keys = left_path.last().unwrap().0.read().await.keys.len();
''')]),
('linear-search', [('lib.rs', '''        let mut low = 0;
        let mut high = n_keys - 1;

        while low <= high {
            let mid = low + ((high - low) >> 1);
''', '''        let mut low = 0;
        let high = n_keys - 1;

        while low <= high {
            let mid = low;
'''), ('lib.rs', '''                if mid == 0 {
                    break;
                }
                // look lower
                high = mid - 1;
            } else {''', '''                break;
            } else {''')]),
('close-explicit', [('external.rs', '''    let hb = from_c(hb);
    drop(ManuallyDrop::<Box<Hyperbee>>::into_inner(hb));''', '''    let mut hb = from_c(hb);
    unsafe { ManuallyDrop::drop(&mut hb) };''')]),
('write-guard-owned', [('put.rs', '''        let _write_guard = self.write_lock.lock().await;''', '''        let write_guard = self.write_lock.clone().lock_owned().await;
        tracing::trace!("writing, guarded by {write_guard:?}");''')]),
('read-yield', [('blocks.rs', '''            trace!("from Hypercore");
''', '''            trace!("from Hypercore");
            tokio::task::yield_now().await;
''')]),
('get-index-owned', [('lib.rs', '''            let KeyValueData {
                seq,
                key: other_key,
                ..
            } = node.read().await.get_key_value(mid).await?;
''', '''            let other = {
                let node = node.read().await;
                node.get_key_value(mid).await?
            };
            let (seq, other_key) = (other.seq, other.key);
''')]),
('cache-or-insert', [('blocks.rs', '''            let block_entry = Arc::new(RwLock::new(block_entry));
            self.cache.write().await.insert(*seq, block_entry.clone());
            Ok(block_entry)''', '''            let mut cache = self.cache.write().await;
            let block_entry = cache
                .entry(*seq)
                .or_insert_with(|| Arc::new(RwLock::new(block_entry)));
            Ok(Arc::clone(block_entry))''')]),
]
