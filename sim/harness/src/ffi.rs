//! The two foreign interfaces, called through their exported symbols as a foreign caller would.
use crate::plan::*;
use crate::run::Outcome;
use std::cell::RefCell;
use std::ffi::{c_char, c_void, CStr, CString};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

// ------------------------------------------------------------------ UniFFI
#[repr(C)]
pub struct RustBuffer {
    capacity: i32,
    len: i32,
    data: *mut u8,
}
#[repr(C)]
pub struct Status {
    code: i8,
    err: RustBuffer,
}
impl Status {
    fn new() -> Self {
        Status { code: 0, err: RustBuffer { capacity: 0, len: 0, data: std::ptr::null_mut() } }
    }
}
type Handle = *const ();
type Cont = extern "C" fn(*const (), i8);
#[repr(C)]
struct ForeignBytes {
    len: i32,
    data: *const u8,
}
extern "C" {
    fn ffi_hyperbee_rustbuffer_from_bytes(b: ForeignBytes, st: &mut Status) -> RustBuffer;
    fn ffi_hyperbee_rustbuffer_free(b: RustBuffer, st: &mut Status);
    fn ffi_hyperbee_rust_future_poll_rust_buffer(h: Handle, c: Cont, d: *const ());
    fn ffi_hyperbee_rust_future_poll_u64(h: Handle, c: Cont, d: *const ());
    fn ffi_hyperbee_rust_future_poll_pointer(h: Handle, c: Cont, d: *const ());
    fn ffi_hyperbee_rust_future_cancel_rust_buffer(h: Handle);
    fn ffi_hyperbee_rust_future_cancel_u64(h: Handle);
    fn ffi_hyperbee_rust_future_cancel_pointer(h: Handle);
    fn ffi_hyperbee_rust_future_complete_rust_buffer(h: Handle, st: &mut Status) -> RustBuffer;
    fn ffi_hyperbee_rust_future_complete_u64(h: Handle, st: &mut Status) -> u64;
    fn ffi_hyperbee_rust_future_complete_pointer(h: Handle, st: &mut Status) -> *const c_void;
    fn ffi_hyperbee_rust_future_free_rust_buffer(h: Handle);
    fn ffi_hyperbee_rust_future_free_u64(h: Handle);
    fn ffi_hyperbee_rust_future_free_pointer(h: Handle);
    fn uniffi_hyperbee_fn_clone_hyperbee(p: *const c_void, st: &mut Status) -> *const c_void;
    fn uniffi_hyperbee_fn_free_hyperbee(p: *const c_void, st: &mut Status);
    fn uniffi_hyperbee_fn_clone_prefixed(p: *const c_void, st: &mut Status) -> *const c_void;
    fn uniffi_hyperbee_fn_free_prefixed(p: *const c_void, st: &mut Status);
    fn uniffi_hyperbee_fn_func_default_sub_config(st: &mut Status) -> RustBuffer;
    fn uniffi_hyperbee_fn_func_hyperbee_from_ram() -> Handle;
    fn uniffi_hyperbee_fn_func_hyperbee_from_storage_dir(p: RustBuffer) -> Handle;
    fn uniffi_hyperbee_fn_method_hyperbee_version(p: *const c_void) -> Handle;
    fn uniffi_hyperbee_fn_method_hyperbee_get(p: *const c_void, k: RustBuffer) -> Handle;
    fn uniffi_hyperbee_fn_method_hyperbee_put(p: *const c_void, k: RustBuffer, v: RustBuffer) -> Handle;
    fn uniffi_hyperbee_fn_method_hyperbee_delete(p: *const c_void, k: RustBuffer) -> Handle;
    fn uniffi_hyperbee_fn_method_hyperbee_sub(p: *const c_void, k: RustBuffer, c: RustBuffer) -> Handle;
    fn uniffi_hyperbee_fn_method_prefixed_get(p: *const c_void, k: RustBuffer) -> Handle;
    fn uniffi_hyperbee_fn_method_prefixed_put(p: *const c_void, k: RustBuffer, v: RustBuffer) -> Handle;
    fn uniffi_hyperbee_fn_method_prefixed_delete(p: *const c_void, k: RustBuffer) -> Handle;
}

fn lower(b: &[u8]) -> RustBuffer {
    let mut st = Status::new();
    unsafe { ffi_hyperbee_rustbuffer_from_bytes(ForeignBytes { len: b.len() as i32, data: b.as_ptr() }, &mut st) }
}
fn lift(b: RustBuffer) -> Vec<u8> {
    let v = if b.len == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(b.data, b.len as usize) }.to_vec() };
    let mut st = Status::new();
    unsafe { ffi_hyperbee_rustbuffer_free(b, &mut st) };
    v
}
fn bytes_arg(b: &[u8]) -> Vec<u8> {
    let mut o = (b.len() as i32).to_be_bytes().to_vec();
    o.extend_from_slice(b);
    o
}
struct Rd<'a>(&'a [u8], bool);
impl Rd<'_> {
    fn take(&mut self, n: usize) -> &[u8] {
        if self.0.len() < n {
            self.1 = true;
            self.0 = &[];
            return &[];
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn u8(&mut self) -> u8 {
        self.take(1).first().copied().unwrap_or(0)
    }
    fn u64(&mut self) -> u64 {
        self.take(8).try_into().map(u64::from_be_bytes).unwrap_or(0)
    }
    fn bytes(&mut self) -> Vec<u8> {
        let n = self.take(4).try_into().map(i32::from_be_bytes).unwrap_or(0);
        self.take(n.max(0) as usize).to_vec()
    }
    fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> Option<T> {
        match self.u8() {
            0 => None,
            1 => Some(f(self)),
            _ => {
                self.1 = true;
                None
            }
        }
    }
    fn end(&self) -> bool {
        !self.1 && self.0.is_empty()
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Ty {
    Buf,
    U64,
    Ptr,
}
enum Val {
    Buf(Vec<u8>),
    U64(u64),
    Ptr(*const c_void),
}
#[derive(Default)]
struct CbState {
    outstanding: bool,
    ready: bool,
    waker: Option<Waker>,
}
struct Call {
    h: Handle,
    ty: Ty,
    st: Arc<Mutex<CbState>>,
    done: bool,
}
extern "C" fn continuation(d: *const (), code: i8) {
    let st = unsafe { Arc::from_raw(d as *const Mutex<CbState>) };
    let w = {
        let mut s = st.lock().unwrap();
        s.outstanding = false;
        if code == 0 {
            s.ready = true;
        }
        s.waker.take()
    };
    if let Some(w) = w {
        w.wake()
    }
}
impl Call {
    fn new(h: Handle, ty: Ty) -> Self {
        Call { h, ty, st: Arc::default(), done: false }
    }
}
impl Future for Call {
    type Output = Result<Val, (i8, Vec<u8>)>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let poll = {
            let mut s = self.st.lock().unwrap();
            s.waker = Some(cx.waker().clone());
            let p = !s.outstanding && !s.ready;
            if p {
                s.outstanding = true;
            }
            p
        };
        if poll {
            // the event loop of the foreign language polls once per notification
            let d = Arc::into_raw(self.st.clone()) as *const ();
            unsafe {
                match self.ty {
                    Ty::Buf => ffi_hyperbee_rust_future_poll_rust_buffer(self.h, continuation, d),
                    Ty::U64 => ffi_hyperbee_rust_future_poll_u64(self.h, continuation, d),
                    Ty::Ptr => ffi_hyperbee_rust_future_poll_pointer(self.h, continuation, d),
                }
            }
        }
        if !self.st.lock().unwrap().ready {
            return Poll::Pending;
        }
        let mut st = Status::new();
        let v = unsafe {
            match self.ty {
                Ty::Buf => {
                    let b = ffi_hyperbee_rust_future_complete_rust_buffer(self.h, &mut st);
                    if st.code == 0 {
                        Val::Buf(lift(b))
                    } else {
                        Val::Buf(vec![])
                    }
                }
                Ty::U64 => Val::U64(ffi_hyperbee_rust_future_complete_u64(self.h, &mut st)),
                Ty::Ptr => Val::Ptr(ffi_hyperbee_rust_future_complete_pointer(self.h, &mut st)),
            }
        };
        self.done = true;
        if st.code == 0 {
            Poll::Ready(Ok(v))
        } else {
            Poll::Ready(Err((st.code, lift(st.err))))
        }
    }
}
impl Drop for Call {
    fn drop(&mut self) {
        unsafe {
            if !self.done {
                match self.ty {
                    Ty::Buf => ffi_hyperbee_rust_future_cancel_rust_buffer(self.h),
                    Ty::U64 => ffi_hyperbee_rust_future_cancel_u64(self.h),
                    Ty::Ptr => ffi_hyperbee_rust_future_cancel_pointer(self.h),
                }
            }
            match self.ty {
                Ty::Buf => ffi_hyperbee_rust_future_free_rust_buffer(self.h),
                Ty::U64 => ffi_hyperbee_rust_future_free_u64(self.h),
                Ty::Ptr => ffi_hyperbee_rust_future_free_pointer(self.h),
            }
        }
    }
}

fn uerr(e: (i8, Vec<u8>)) -> Outcome {
    match e.0 {
        1 => {
            let mut r = Rd(&e.1, false);
            let n = r.take(4).try_into().map(i32::from_be_bytes).unwrap_or(-1);
            let m = r.bytes();
            if n <= 0 || m.is_empty() || !r.end() {
                return Outcome::Err("MalformedError".into(), format!("{:?}", e.1));
            }
            Outcome::Err("Error".into(), String::from_utf8_lossy(&m).into_owned())
        }
        c => {
            let mut msg = Rd(&e.1, false);
            let _ = &mut msg;
            Outcome::Err(format!("Unexpected{c}"), String::from_utf8_lossy(&e.1).into_owned())
        }
    }
}

pub struct Uni {
    bee: *const c_void,
    subs: Vec<*const c_void>,
}
impl Drop for Uni {
    fn drop(&mut self) {
        let mut st = Status::new();
        unsafe {
            for s in self.subs.drain(..) {
                uniffi_hyperbee_fn_free_prefixed(s, &mut st);
            }
            uniffi_hyperbee_fn_free_hyperbee(self.bee, &mut st);
        }
    }
}
impl Uni {
    pub async fn open(plan: &Plan, path: &str) -> Result<Uni, Outcome> {
        let h = unsafe {
            if plan.open == "ram" {
                uniffi_hyperbee_fn_func_hyperbee_from_ram()
            } else {
                // strings are passed without a length prefix
                uniffi_hyperbee_fn_func_hyperbee_from_storage_dir(lower(path.as_bytes()))
            }
        };
        let bee = match Call::new(h, Ty::Ptr).await {
            Ok(Val::Ptr(p)) => p,
            Ok(_) => unreachable!(),
            Err(e) => return Err(uerr(e)),
        };
        let mut u = Uni { bee, subs: vec![] };
        for (p, s) in &plan.subs {
            let mut st = Status::new();
            let conf = if s.0 == b"\0" {
                unsafe { uniffi_hyperbee_fn_func_default_sub_config(&mut st) }
            } else {
                lower(&bytes_arg(&s.0))
            };
            let h = unsafe { uniffi_hyperbee_fn_method_hyperbee_sub(u.me(), lower(&bytes_arg(&p.0)), conf) };
            match Call::new(h, Ty::Ptr).await {
                Ok(Val::Ptr(p)) => u.subs.push(p),
                Ok(_) => unreachable!(),
                Err(e) => return Err(uerr(e)),
            }
        }
        Ok(u)
    }
    fn me(&self) -> *const c_void {
        let mut st = Status::new();
        unsafe { uniffi_hyperbee_fn_clone_hyperbee(self.bee, &mut st) }
    }
    fn sub(&self, i: usize) -> *const c_void {
        let mut st = Status::new();
        unsafe { uniffi_hyperbee_fn_clone_prefixed(self.subs[i], &mut st) }
    }
    pub async fn exec(&self, op: &Op) -> Outcome {
        let key = || lower(&bytes_arg(&op.key.0));
        let h = op.h as usize;
        match &op.kind {
            Kind::Get => {
                let c = unsafe {
                    if h == 0 {
                        uniffi_hyperbee_fn_method_hyperbee_get(self.me(), key())
                    } else {
                        uniffi_hyperbee_fn_method_prefixed_get(self.sub(h - 1), key())
                    }
                };
                match Call::new(c, Ty::Buf).await {
                    Ok(Val::Buf(b)) => {
                        let mut r = Rd(&b, false);
                        let v = r.opt(|r| (r.u64(), r.opt(|r| r.bytes())));
                        if !r.end() {
                            return Outcome::Err("MalformedResult".into(), format!("{b:?}"));
                        }
                        Outcome::Got(v)
                    }
                    Ok(_) => unreachable!(),
                    Err(e) => uerr(e),
                }
            }
            Kind::Put(v) => {
                let val = match v {
                    None => lower(&[0]),
                    Some(v) => lower(&[&[1u8][..], &bytes_arg(&v.0)].concat()),
                };
                let c = unsafe {
                    if h == 0 {
                        uniffi_hyperbee_fn_method_hyperbee_put(self.me(), key(), val)
                    } else {
                        uniffi_hyperbee_fn_method_prefixed_put(self.sub(h - 1), key(), val)
                    }
                };
                match Call::new(c, Ty::Buf).await {
                    Ok(Val::Buf(b)) => {
                        let mut r = Rd(&b, false);
                        let (o, n) = (r.opt(|r| r.u64()), r.u64());
                        if !r.end() {
                            return Outcome::Err("MalformedResult".into(), format!("{b:?}"));
                        }
                        Outcome::Put(o, Some(n))
                    }
                    Ok(_) => unreachable!(),
                    Err(e) => uerr(e),
                }
            }
            Kind::Del => {
                let c = unsafe {
                    if h == 0 {
                        uniffi_hyperbee_fn_method_hyperbee_delete(self.me(), key())
                    } else {
                        uniffi_hyperbee_fn_method_prefixed_delete(self.sub(h - 1), key())
                    }
                };
                match Call::new(c, Ty::Buf).await {
                    Ok(Val::Buf(b)) => {
                        let mut r = Rd(&b, false);
                        let v = r.opt(|r| r.u64());
                        if !r.end() {
                            return Outcome::Err("MalformedResult".into(), format!("{b:?}"));
                        }
                        Outcome::Del(v)
                    }
                    Ok(_) => unreachable!(),
                    Err(e) => uerr(e),
                }
            }
            Kind::Version => {
                let c = unsafe { uniffi_hyperbee_fn_method_hyperbee_version(self.me()) };
                match Call::new(c, Ty::U64).await {
                    Ok(Val::U64(n)) => Outcome::Version(n),
                    Ok(_) => unreachable!(),
                    Err(e) => uerr(e),
                }
            }
            _ => Outcome::Unit,
        }
    }
}

// ------------------------------------------------------------------ C
type GetCb = unsafe extern "C" fn(i64, *const c_char, u64, *mut u8, usize);
extern "C" {
    fn init_runtime() -> *mut c_void;
    fn close_runtime(rt: *mut c_void);
    fn close_hyperbee(hb: *mut c_void);
    fn hyperbee_from_storage_directory(rt: *mut c_void, dir: *const c_char) -> *mut c_void;
    fn hb_get(rt: *mut c_void, hb: *mut c_void, key: *const u8, n: usize, cb: GetCb) -> i32;
    fn deallocate_rust_string(p: *mut c_char);
    fn deallocate_rust_buffer(p: *mut u8, n: usize);
}
#[derive(Default, Clone)]
struct Answer {
    calls: u32,
    out: Option<Outcome>,
    waker: Option<Waker>,
    /// the callback asks again: (runtime, bee, key, slot of the second answer)
    again: Option<(*mut c_void, *mut c_void, Vec<u8>, usize)>,
}
/// What a callback was given and has not released yet, and what it looked like.
struct Held {
    p: *mut u8,
    copy: Vec<u8>,
    text: bool,
}
fn hold(p: *mut u8, copy: &[u8], text: bool) {
    HELD.with(|h| h.borrow_mut().push(Held { p, copy: copy.to_vec(), text }));
}
fn release() {
    let all = HELD.with(|h| std::mem::take(&mut *h.borrow_mut()));
    for h in all {
        let now = if h.copy.is_empty() { &[][..] } else { unsafe { std::slice::from_raw_parts(h.p, h.copy.len()) } };
        if now != &h.copy[..] {
            CHANGED.with(|c| c.borrow_mut().push(format!("memory given to a callback changed before it was released: {:?} became {:?}", B(h.copy.clone()), B(now.to_vec()))));
        }
        unsafe {
            if h.text {
                deallocate_rust_string(h.p as *mut c_char)
            } else {
                deallocate_rust_buffer(h.p, h.copy.len())
            }
        }
    }
}
/// At the end of a run: everything is released; what went wrong?
pub fn finish() -> Vec<String> {
    release();
    CHANGED.with(|c| std::mem::take(&mut *c.borrow_mut()))
}
const SLOTS: usize = 400;
thread_local! {
    static ANSWERS: RefCell<Vec<Answer>> = const { RefCell::new(vec![]) };
    static HELD: RefCell<Vec<Held>> = const { RefCell::new(vec![]) };
    static CHANGED: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    static USED: RefCell<usize> = const { RefCell::new(0) };
}
fn answered(n: usize, code: i64, msg: *const c_char, seq: u64, val: *mut u8, len: usize) {
    let text = if msg.is_null() {
        None
    } else {
        let s = unsafe { CStr::from_ptr(msg) };
        hold(msg as *mut u8, s.to_bytes(), true);
        Some(s.to_string_lossy().into_owned())
    };
    let value = if val.is_null() {
        None
    } else {
        let v = unsafe { std::slice::from_raw_parts(val, len) }.to_vec();
        hold(val, &v, false);
        Some(v)
    };
    // some callers release at once, some later
    if n % 3 == 0 {
        release();
    }
    let out = if code != 0 {
        if seq != 0 || value.is_some() || len != 0 {
            Outcome::Err("MalformedCallback".into(), format!("code {code} with seq {seq}, value {value:?} and length {len}"))
        } else {
            match text {
                Some(t) if !t.is_empty() => Outcome::Err("Error".into(), t),
                _ => Outcome::Err("MalformedCallback".into(), "error without a message".into()),
            }
        }
    } else if value.is_none() && len != 0 {
        Outcome::Err("MalformedCallback".into(), format!("no value but a length of {len}"))
    } else if seq == 0 && value.is_some() {
        Outcome::Err("MalformedCallback".into(), "value for an absent key".into())
    } else if seq == 0 {
        Outcome::Got(None)
    } else {
        Outcome::Got(Some((seq, value)))
    };
    simrt::log(|| format!("callback {n}"));
    let again = ANSWERS.with(|a| a.borrow_mut()[n].again.take());
    if let Some((rt, hb, key, m)) = again {
        simrt::stat("c_get_in_callback");
        let rc = unsafe { hb_get(rt, hb, key.as_ptr(), key.len(), TABLE[m]) };
        if rc != 0 {
            CHANGED.with(|c| c.borrow_mut().push(format!("hb_get in a callback returned {rc}")));
        }
    }
    let w = ANSWERS.with(|a| {
        let mut a = a.borrow_mut();
        let s = &mut a[n];
        s.calls += 1;
        if s.calls == 1 {
            s.out = Some(out);
        }
        s.waker.take()
    });
    if let Some(w) = w {
        w.wake()
    }
}
unsafe extern "C" fn cb<const N: usize>(code: i64, msg: *const c_char, seq: u64, val: *mut u8, len: usize) {
    answered(N, code, msg, seq, val, len)
}
macro_rules! table {
    ($($n:expr)*) => { [$(cb::<{$n * 10}>, cb::<{$n * 10 + 1}>, cb::<{$n * 10 + 2}>, cb::<{$n * 10 + 3}>, cb::<{$n * 10 + 4}>,
        cb::<{$n * 10 + 5}>, cb::<{$n * 10 + 6}>, cb::<{$n * 10 + 7}>, cb::<{$n * 10 + 8}>, cb::<{$n * 10 + 9}>,)*] };
}
static TABLE: [GetCb; SLOTS] = table!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19
    20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39);

/// Forget the answers of the previous run.
pub fn reset() {
    ANSWERS.with(|a| *a.borrow_mut() = vec![Answer::default(); SLOTS]);
    USED.with(|u| *u.borrow_mut() = 0);
}
/// Start gets whose answers nobody waits for: the runtime will be closed with some of them in flight.
pub fn start_gets(c: &CBee, keys: &[Vec<u8>]) {
    for key in keys {
        let n = USED.with(|u| {
            let mut u = u.borrow_mut();
            *u += 1;
            *u - 1
        });
        if n >= SLOTS {
            return;
        }
        simrt::stat("c_get_at_close");
        let rc = unsafe { hb_get(c.rt.get(), c.hb, key.as_ptr(), key.len(), TABLE[n]) };
        if rc != 0 {
            CHANGED.with(|c| c.borrow_mut().push(format!("hb_get before the runtime is closed returned {rc}")));
        }
    }
}
/// Callbacks called so far.
pub fn callbacks() -> u32 {
    ANSWERS.with(|a| a.borrow().iter().map(|s| s.calls).sum())
}
/// Callbacks that were called more than once.
pub fn repeated() -> Vec<(usize, u32)> {
    ANSWERS.with(|a| a.borrow().iter().enumerate().filter(|(_, s)| s.calls > 1).map(|(i, s)| (i, s.calls)).collect())
}

pub struct CBee {
    rt: std::cell::Cell<*mut c_void>,
    hb: *mut c_void,
}
impl Drop for CBee {
    fn drop(&mut self) {
        self.close_runtime();
        unsafe { close_hyperbee(self.hb) }
    }
}
impl CBee {
    pub fn close_runtime(&self) {
        let rt = self.rt.replace(std::ptr::null_mut());
        if !rt.is_null() {
            unsafe { close_runtime(rt) }
        }
    }
    pub fn open(_plan: &Plan, path: &str) -> Option<CBee> {
        unsafe {
            let no = hypercore::sim::draw_runtime();
            tokio::runtime::fail_next(no);
            let rt = init_runtime();
            if rt.is_null() {
                if !no {
                    panic!("no runtime, although nothing failed");
                }
                return None;
            }
            if no {
                panic!("a runtime that could not be made gave a handle");
            }
            if !hyperbee_from_storage_directory(rt, std::ptr::null()).is_null() {
                panic!("opening no directory gave a handle");
            }
            let p = std::os::unix::ffi::OsStringExt::into_vec(hypercore::sim::path_of(path).into_os_string());
            let p = CString::new(p).unwrap();
            let hb = hyperbee_from_storage_directory(rt, p.as_ptr());
            if hb.is_null() {
                close_runtime(rt);
                return None;
            }
            Some(CBee { rt: rt.into(), hb })
        }
    }
    pub async fn exec(&self, op: &Op) -> Outcome {
        if op.kind != Kind::Get || op.h != 0 {
            return Outcome::Unit;
        }
        let twice = op.id % 6 == 5;
        let n = USED.with(|u| {
            let mut u = u.borrow_mut();
            *u += 1 + twice as usize;
            *u - 1 - twice as usize
        });
        if n + twice as usize >= SLOTS {
            return Outcome::Unit;
        }
        if twice {
            ANSWERS.with(|a| a.borrow_mut()[n].again = Some((self.rt.get(), self.hb, op.key.0.clone(), n + 1)));
        }
        {
            // the caller's key buffer is only valid during the call
            let mut key = op.key.0.clone();
            // the empty key: some callers pass no buffer, some the end of one
            let p = match key.len() {
                0 if n % 2 == 0 => std::ptr::null(),
                0 => std::ptr::NonNull::dangling().as_ptr(),
                _ => key.as_ptr(),
            };
            let rc = unsafe { hb_get(self.rt.get(), self.hb, p, key.len(), TABLE[n]) };
            key.iter_mut().for_each(|b| *b = 0xAA);
            if rc != 0 {
                return Outcome::Err("Rejected".into(), format!("hb_get returned {rc}"));
            }
        }
        let first = answer(n).await;
        if !twice || matches!(&first, Outcome::Err(e, _) if e == "MalformedCallback") {
            return first;
        }
        // nobody writes here: two answers are the same
        match (first, answer(n + 1).await) {
            (Outcome::Got(x), Outcome::Got(y)) if x != y => Outcome::Err("MalformedCallback".into(), format!("answered {x:?}, asked again {y:?}")),
            (_, second) => second,
        }
    }
}
async fn answer(n: usize) -> Outcome {
    std::future::poll_fn(move |cx| {
        ANSWERS.with(|a| {
            let mut a = a.borrow_mut();
            match a[n].out.take() {
                Some(o) => Poll::Ready(o),
                None => {
                    a[n].waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
    })
    .await
}
