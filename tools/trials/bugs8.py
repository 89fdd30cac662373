FIELD = ('blocks.rs', '''    #[builder(setter(custom))]
    core: ReplicatingCore,''', '''    #[builder(default = "std::time::SystemTime::now()")]
    opened: std::time::SystemTime,
    #[builder(default = "std::time::Instant::now()")]
    started: std::time::Instant,
    #[builder(setter(custom))]
    core: ReplicatingCore,''')
BUGS = [
('clock-unwrap', 'C01 C03 C09 C10 C16', [FIELD, ('blocks.rs', '''            trace!("from Hypercore");''', '''            let age = std::time::SystemTime::now().duration_since(self.opened).unwrap();
            trace!("from Hypercore {age:?}");''')]),
('clock-idle-absent', 'C01 C11', [FIELD, ('blocks.rs', '''            trace!("from Hypercore");''', '''            trace!("from Hypercore");
            if self.started.elapsed() > std::time::Duration::from_secs(3600) {
                return Err(HyperbeeError::NoBlockAtSeqError(*seq));
            }''')]),
]
