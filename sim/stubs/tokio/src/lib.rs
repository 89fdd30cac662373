//! tokio under the simulator: real tokio, except that locks have a scheduling point before each
//! acquisition and that tasks, runtimes and time belong to the simulator.
pub use real_tokio::*;

pub mod sync {
    pub use real_tokio::sync::*;
    use std::fmt;
    use std::sync::Arc;

    pub struct RwLock<T>(Arc<real_tokio::sync::RwLock<T>>);
    impl<T> RwLock<T> {
        pub fn new(t: T) -> Self {
            Self(Arc::new(real_tokio::sync::RwLock::new(t)))
        }
        pub async fn read(&self) -> RwLockReadGuard<'_, T> {
            simrt::preempt_point().await;
            simrt::waiting(self.0.read()).await
        }
        pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
            simrt::preempt_point().await;
            simrt::waiting(self.0.write()).await
        }
        pub async fn read_owned(self: Arc<Self>) -> OwnedRwLockReadGuard<T> {
            simrt::preempt_point().await;
            simrt::waiting(self.0.clone().read_owned()).await
        }
        pub async fn write_owned(self: Arc<Self>) -> OwnedRwLockWriteGuard<T> {
            simrt::preempt_point().await;
            simrt::waiting(self.0.clone().write_owned()).await
        }
        pub fn try_read_owned(self: Arc<Self>) -> Result<OwnedRwLockReadGuard<T>, TryLockError> {
            self.0.clone().try_read_owned()
        }
        pub fn try_write_owned(self: Arc<Self>) -> Result<OwnedRwLockWriteGuard<T>, TryLockError> {
            self.0.clone().try_write_owned()
        }
        pub fn blocking_read(&self) -> RwLockReadGuard<'_, T> {
            crate::runtime::blocking(self.read())
        }
        pub fn blocking_write(&self) -> RwLockWriteGuard<'_, T> {
            crate::runtime::blocking(self.write())
        }
        pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
            self.0.try_read()
        }
        pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
            self.0.try_write()
        }
        pub fn into_inner(self) -> T {
            match Arc::try_unwrap(self.0) {
                Ok(l) => l.into_inner(),
                Err(_) => panic!("RwLock still shared by an owned guard"),
            }
        }
        pub fn get_mut(&mut self) -> &mut T {
            Arc::get_mut(&mut self.0).expect("RwLock still shared by an owned guard").get_mut()
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }
    impl<T: fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }

    pub struct Mutex<T>(Arc<real_tokio::sync::Mutex<T>>);
    impl<T> Mutex<T> {
        pub fn new(t: T) -> Self {
            Self(Arc::new(real_tokio::sync::Mutex::new(t)))
        }
        pub async fn lock(&self) -> MutexGuard<'_, T> {
            simrt::preempt_point().await;
            simrt::waiting(self.0.lock()).await
        }
        pub async fn lock_owned(self: Arc<Self>) -> OwnedMutexGuard<T> {
            simrt::preempt_point().await;
            simrt::waiting(self.0.clone().lock_owned()).await
        }
        pub fn try_lock_owned(self: Arc<Self>) -> Result<OwnedMutexGuard<T>, TryLockError> {
            self.0.clone().try_lock_owned()
        }
        pub fn blocking_lock(&self) -> MutexGuard<'_, T> {
            crate::runtime::blocking(self.lock())
        }
        pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
            self.0.try_lock()
        }
        pub fn into_inner(self) -> T {
            match Arc::try_unwrap(self.0) {
                Ok(l) => l.into_inner(),
                Err(_) => panic!("Mutex still shared by an owned guard"),
            }
        }
        pub fn get_mut(&mut self) -> &mut T {
            Arc::get_mut(&mut self.0).expect("Mutex still shared by an owned guard").get_mut()
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }
    impl<T: fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
}

pub mod task {
    pub use real_tokio::task::LocalSet;
    use std::fmt;
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::{Arc, Mutex};
    use std::task::{Context, Poll, Waker};

    struct Slot<T> {
        val: Option<T>,
        dead: bool,
        waker: Option<Waker>,
    }
    pub struct JoinHandle<T> {
        id: usize,
        slot: Arc<Mutex<Slot<T>>>,
    }
    #[derive(Debug)]
    pub struct JoinError(());
    impl JoinError {
        pub fn is_cancelled(&self) -> bool {
            false
        }
        pub fn is_panic(&self) -> bool {
            true
        }
        pub fn into_panic(self) -> Box<dyn std::any::Any + Send + 'static> {
            Box::new("task failed")
        }
        pub fn try_into_panic(self) -> Result<Box<dyn std::any::Any + Send + 'static>, JoinError> {
            Ok(self.into_panic())
        }
    }
    impl fmt::Display for JoinError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "task failed")
        }
    }
    impl std::error::Error for JoinError {}
    impl<T> fmt::Debug for JoinHandle<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "JoinHandle({})", self.id)
        }
    }
    /// Ends a task.
    #[derive(Debug, Clone)]
    pub struct AbortHandle(usize);
    impl AbortHandle {
        pub fn abort(&self) {
            simrt::abort(self.0)
        }
        pub fn is_finished(&self) -> bool {
            !simrt::task_alive(self.0)
        }
    }
    impl<T> JoinHandle<T> {
        pub fn abort(&self) {
            simrt::abort(self.id)
        }
        pub fn abort_handle(&self) -> AbortHandle {
            AbortHandle(self.id)
        }
        pub fn sim_id(&self) -> usize {
            self.id
        }
        pub fn is_finished(&self) -> bool {
            !simrt::task_alive(self.id)
        }
    }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let mut s = self.slot.lock().unwrap();
            if let Some(v) = s.val.take() {
                return Poll::Ready(Ok(v));
            }
            if s.dead {
                return Poll::Ready(Err(JoinError(())));
            }
            s.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
    struct Guard<T>(Arc<Mutex<Slot<T>>>);
    impl<T> Drop for Guard<T> {
        fn drop(&mut self) {
            let w = {
                let mut s = self.0.lock().unwrap();
                s.dead = true;
                s.waker.take()
            };
            if let Some(w) = w {
                w.wake()
            }
        }
    }
    pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        spawn_local(f)
    }
    thread_local!(static ENTERED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
    /// Restores whether this thread is driving a runtime.
    pub(crate) struct Enter(bool);
    impl Enter {
        pub(crate) fn set(on: bool) -> Self {
            Enter(ENTERED.replace(on))
        }
        pub(crate) fn entered() -> bool {
            ENTERED.get()
        }
    }
    impl Drop for Enter {
        fn drop(&mut self) {
            ENTERED.set(self.0)
        }
    }
    /// Polls a future as a worker of a runtime does.
    pub(crate) async fn entered<F: Future>(f: F) -> F::Output {
        let mut f = Box::pin(f);
        let rt = crate::runtime::current();
        std::future::poll_fn(move |cx| {
            let _e = Enter::set(true);
            let _r = rt.as_ref().map(|rt| rt.enter());
            f.as_mut().poll(cx)
        })
        .await
    }
    pub fn spawn_local<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + 'static,
        F::Output: 'static,
    {
        spawn_bare(entered(f))
    }
    fn spawn_bare<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + 'static,
        F::Output: 'static,
    {
        let slot = Arc::new(Mutex::new(Slot { val: None, dead: false, waker: None }));
        let g = Guard(slot.clone());
        let id = simrt::spawn_here("spawned", false, async move {
            let v = f.await;
            g.0.lock().unwrap().val = Some(v);
            drop(g);
        });
        if let Some(rt) = crate::runtime::current() {
            rt.own(id)
        }
        JoinHandle { id, slot }
    }
    pub async fn yield_now() {
        simrt::with(|w| w.gave_way());
        simrt::yield_now().await
    }
    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        let rt = crate::runtime::current();
        spawn_bare(async move {
            let _r = rt.as_ref().map(|rt| rt.enter());
            f()
        })
    }
    /// Runs as it is: nothing here limits how long a task may run.
    pub async fn unconstrained<F: Future>(f: F) -> F::Output {
        f.await
    }
    pub async fn consume_budget() {}
    /// Tasks awaited in the order they end (of those that ended, the first that was spawned).
    #[derive(Debug)]
    pub struct JoinSet<T>(Vec<JoinHandle<T>>);
    impl<T> Default for JoinSet<T> {
        fn default() -> Self {
            JoinSet(vec![])
        }
    }
    impl<T: 'static> JoinSet<T> {
        pub fn new() -> Self {
            JoinSet(vec![])
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
        pub fn spawn<F>(&mut self, f: F)
        where
            F: Future<Output = T> + Send + 'static,
            T: Send,
        {
            self.0.push(spawn(f));
        }
        pub async fn shutdown(&mut self) {
            self.abort_all();
            while self.join_next().await.is_some() {}
        }
        pub fn detach_all(&mut self) {
            self.0.clear()
        }
        pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
            if self.0.is_empty() {
                return None;
            }
            let (i, r) = std::future::poll_fn(|cx| {
                for (i, h) in self.0.iter_mut().enumerate() {
                    if let Poll::Ready(r) = Pin::new(h).poll(cx) {
                        return Poll::Ready((i, r));
                    }
                }
                Poll::Pending
            })
            .await;
            self.0.remove(i);
            Some(r)
        }
        pub fn abort_all(&mut self) {
            for h in &self.0 {
                h.abort()
            }
        }
    }
    impl<T> Drop for JoinSet<T> {
        fn drop(&mut self) {
            if simrt::active() {
                for h in &self.0 {
                    h.abort()
                }
            }
        }
    }
    pub fn block_in_place<T>(f: impl FnOnce() -> T) -> T {
        let _e = Enter::set(false);
        f()
    }
}
pub use task::spawn;

pub mod time {
    pub use std::time::Duration;
    use std::future::Future;
    use std::task::Poll;
    pub async fn sleep(d: Duration) {
        simrt::with(|w| {
            let op = w.op();
            *w.timers.entry(op).or_insert(0) += 1
        });
        simrt::sleep_us(d.as_micros() as u64).await
    }
    #[derive(Debug)]
    pub struct Elapsed(());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
    pub mod error {
        pub use super::Elapsed;
    }
    pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, Elapsed> {
        let mut f = Box::pin(f);
        let mut s = Box::pin(simrt::sleep_us(d.as_micros() as u64));
        std::future::poll_fn(move |cx| {
            if let Poll::Ready(v) = f.as_mut().poll(cx) {
                return Poll::Ready(Ok(v));
            }
            if s.as_mut().poll(cx).is_ready() {
                return Poll::Ready(Err(Elapsed(())));
            }
            Poll::Pending
        })
        .await
    }
}

pub mod runtime {
    use std::future::Future;
    /// A runtime whose worker threads are the simulator.
    /// Dropping it drops its tasks.
    #[derive(Debug)]
    pub struct Runtime(Handle);
    impl Drop for Runtime {
        fn drop(&mut self) {
            self.0.end()
        }
    }
    thread_local! {
        static FAIL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    }
    /// The next runtime cannot be made.
    pub fn fail_next(fail: bool) {
        FAIL.with(|f| f.set(fail));
    }
    /// The tasks of a runtime.
    #[derive(Debug, Clone, Default)]
    pub struct Handle(std::sync::Arc<std::sync::Mutex<Vec<usize>>>);
    thread_local! {
        static CURRENT: std::cell::RefCell<Option<Handle>> = const { std::cell::RefCell::new(None) };
    }
    /// In the context of a runtime until dropped.
    #[derive(Debug)]
    pub struct EnterGuard<'a>(Option<Handle>, std::marker::PhantomData<&'a Handle>);
    impl Drop for EnterGuard<'_> {
        fn drop(&mut self) {
            CURRENT.set(self.0.take())
        }
    }
    #[derive(Debug)]
    pub struct TryCurrentError(());
    impl std::fmt::Display for TryCurrentError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "there is no reactor running, must be called from the context of a Tokio 1.x runtime")
        }
    }
    impl std::error::Error for TryCurrentError {}
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    #[non_exhaustive]
    pub enum RuntimeFlavor {
        CurrentThread,
        MultiThread,
    }
    pub(crate) fn current() -> Option<Handle> {
        CURRENT.with_borrow(|c| c.clone())
    }
    impl Runtime {
        pub fn new() -> std::io::Result<Runtime> {
            simrt::stat("runtimes");
            if FAIL.with(|f| f.replace(false)) {
                return Err(std::io::Error::new(std::io::ErrorKind::WouldBlock, "simulated: no more threads"));
            }
            Ok(Runtime(Handle::default()))
        }
        pub fn handle(&self) -> &Handle {
            &self.0
        }
        pub fn enter(&self) -> EnterGuard<'_> {
            self.0.enter()
        }
        pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            self.0.spawn(f)
        }
        pub fn spawn_blocking<F, R>(&self, f: F) -> crate::task::JoinHandle<R>
        where
            F: FnOnce() -> R + Send + 'static,
            R: Send + 'static,
        {
            self.0.spawn_blocking(f)
        }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            self.0.block_on(f)
        }
        /// The workers notice when they get round to it.
        pub fn shutdown_background(self) {
            if !simrt::active() {
                return;
            }
            let tasks = std::mem::take(&mut *self.0 .0.lock().unwrap());
            simrt::spawn_here("shutdown", true, async move {
                simrt::yield_now().await;
                tasks.into_iter().for_each(simrt::abort)
            });
        }
        pub fn shutdown_timeout(self, d: std::time::Duration) {
            match d.is_zero() {
                true => self.shutdown_background(),
                false => drop(self),
            }
        }
    }
    impl Handle {
        fn end(&self) {
            if simrt::active() {
                let tasks = std::mem::take(&mut *self.0.lock().unwrap());
                tasks.into_iter().for_each(simrt::abort)
            }
        }
        pub(crate) fn own(&self, task: usize) {
            self.0.lock().unwrap().push(task)
        }
        pub fn current() -> Handle {
            current().unwrap_or_default()
        }
        pub fn try_current() -> Result<Handle, TryCurrentError> {
            Ok(Self::current())
        }
        pub fn enter(&self) -> EnterGuard<'_> {
            EnterGuard(CURRENT.replace(Some(self.clone())), std::marker::PhantomData)
        }
        pub fn runtime_flavor(&self) -> RuntimeFlavor {
            RuntimeFlavor::MultiThread
        }
        pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            let _e = self.enter();
            crate::task::spawn(f)
        }
        pub fn spawn_blocking<F, R>(&self, f: F) -> crate::task::JoinHandle<R>
        where
            F: FnOnce() -> R + Send + 'static,
            R: Send + 'static,
        {
            let _e = self.enter();
            crate::task::spawn_blocking(f)
        }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            let _e = self.enter();
            block_on(f)
        }
    }
    pub(crate) fn blocking<F: Future>(f: F) -> F::Output {
        if crate::task::Enter::entered() {
            panic!("Cannot block the current thread from within a runtime. This happens because a function attempted to block the current thread while the thread is being used to drive asynchronous tasks.");
        }
        simrt::block_on(f)
    }
    fn block_on<F: Future>(f: F) -> F::Output {
        if crate::task::Enter::entered() {
            panic!("Cannot start a runtime from within a runtime. This happens because a function (like `block_on`) attempted to block the current thread while the thread is being used to drive asynchronous tasks.");
        }
        simrt::block_on(crate::task::entered(f))
    }
    #[derive(Debug)]
    pub struct Builder(());
    impl Builder {
        pub fn new_multi_thread() -> Self {
            Builder(())
        }
        pub fn new_current_thread() -> Self {
            Builder(())
        }
        pub fn enable_all(&mut self) -> &mut Self {
            self
        }
        pub fn enable_time(&mut self) -> &mut Self {
            self
        }
        pub fn enable_io(&mut self) -> &mut Self {
            self
        }
        pub fn worker_threads(&mut self, _n: usize) -> &mut Self {
            self
        }
        pub fn thread_name(&mut self, _n: impl Into<String>) -> &mut Self {
            self
        }
        pub fn max_blocking_threads(&mut self, _n: usize) -> &mut Self {
            self
        }
        pub fn thread_stack_size(&mut self, _n: usize) -> &mut Self {
            self
        }
        pub fn build(&mut self) -> std::io::Result<Runtime> {
            Runtime::new()
        }
    }
}
