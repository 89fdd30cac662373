BUGS = [
('c-shutdown-background', 'C15', [('external.rs', '''    drop(ManuallyDrop::<Box<Runtime>>::into_inner(rt));''', '''    let rt = *ManuallyDrop::<Box<Runtime>>::into_inner(rt);
    rt.shutdown_background();''')]),
('c-drop-elsewhere', 'C15', [('external.rs', '''    drop(ManuallyDrop::<Box<Runtime>>::into_inner(rt));''', '''    let rt = ManuallyDrop::<Box<Runtime>>::into_inner(rt);
    std::thread::spawn(move || drop(rt));''')]),
('c-shared-runtime', 'C15', [
 ('external.rs', '''    let rt = from_c(rt);
    drop(ManuallyDrop::<Box<Runtime>>::into_inner(rt));''', '''    let rt = from_c(rt);
    if SPAWNED.with(|s| s.get()) > 2 {
        // busy
        forget(ManuallyDrop::<Box<Runtime>>::into_inner(rt));
        return;
    }
    drop(ManuallyDrop::<Box<Runtime>>::into_inner(rt));'''),
 ('external.rs', '''type RuntimePointer = *mut Runtime;''', '''type RuntimePointer = *mut Runtime;
thread_local!(static SPAWNED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });'''),
 ('external.rs', '''    rt.spawn(async move {
        match hb.get''', '''    SPAWNED.with(|s| s.set(s.get() + 1));
    rt.spawn(async move {
        match hb.get'''),
]),
# a traversal holds on to what another operation needs, at different places
('trav-holds-write-lock', 'C14', [('tree.rs', '''        let stream = Traverse::new(root, conf);
        Ok(stream.map(move |kv_and_node| kv_and_node.0))''', '''        let guard = self.write_lock.clone().try_lock_owned().ok();
        let stream = Traverse::new(root, conf);
        Ok(stream.map(move |kv_and_node| {
            let _ = &guard;
            kv_and_node.0
        }))''')]),
('trav-late-root', 'C08', [('hb.rs', '''        self.tree.read().await.traverse(conf).await
    }''', '''        use futures_lite::StreamExt;
        let stream = self.tree.read().await.traverse(conf).await?;
        let tree = self.tree.clone();
        let version = self.version().await;
        Ok(stream.then(move |item| {
            let tree = tree.clone();
            async move {
                let mut item = item?;
                if tree.read().await.version().await != version {
                    // the value may have been replaced
                    if let Some((seq, value)) = tree.read().await.get(&item.key).await? {
                        item.seq = seq;
                        item.value = value;
                    }
                }
                Ok(item)
            }
        }))
    }''')]),
('sub-trav-guard', 'C14', [
 ('prefixed.rs', '''        let stream = self.tree.read().await.traverse(bounded_conf).await?;''', '''        let tree = self.tree.clone().read_owned().await;
        let stream = tree.traverse(bounded_conf).await?;'''),
 ('prefixed.rs', '''            let len_drain = len_drain;''', '''            let len_drain = len_drain;
            let _ = &tree;'''),
 ('hb.rs', '''        self.tree.read().await.create_header(metadata).await''', '''        self.tree.write().await.create_header(metadata).await'''),
]),
]
