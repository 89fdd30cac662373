//! Simulated byte streams between nodes: delay, fragmentation, cut at any byte.
use futures_io::{AsyncRead, AsyncWrite};
use simrt::K_NET;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Default)]
struct Dir {
    flying: VecDeque<Vec<u8>>,
    ready: VecDeque<u8>,
    reader: Option<Waker>,
    writer: Option<Waker>,
    closed: bool,
}
impl Dir {
    fn wake(&mut self) {
        if let Some(w) = self.reader.take() {
            w.wake()
        }
        if let Some(w) = self.writer.take() {
            w.wake()
        }
    }
}
pub struct Link {
    dirs: [Mutex<Dir>; 2],
    id: u32,
}
impl Link {
    pub fn cut(&self) {
        for d in &self.dirs {
            let mut d = d.lock().unwrap();
            d.closed = true;
            d.flying.clear();
            d.ready.clear();
            d.wake();
        }
    }
}
pub struct End {
    link: Arc<Link>,
    side: usize,
}
pub fn pair(id: u32) -> (End, End, Arc<Link>) {
    let link = Arc::new(Link { dirs: Default::default(), id });
    (End { link: link.clone(), side: 0 }, End { link: link.clone(), side: 1 }, link)
}
impl Drop for End {
    fn drop(&mut self) {
        // the other side sees the end of the stream after what is already in flight is lost
        self.link.cut();
    }
}
fn draw(id: u32, f: impl FnOnce(&mut simrt::Rng) -> u32) -> u32 {
    simrt::with(|w| w.draw(K_NET, 10_000 + id, f))
}
const WINDOW: usize = 8;
impl AsyncWrite for End {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let link = self.link.clone();
        let side = self.side;
        let mut d = link.dirs[side].lock().unwrap();
        if d.closed {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if d.flying.len() >= WINDOW {
            d.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        // short writes: 0 = everything
        let k = draw(link.id, |r| if r.pm(300) { 1 + r.below(24) as u32 } else { 0 }) as usize;
        let n = if k == 0 { buf.len() } else { k.min(buf.len()) };
        if k != 0 {
            simrt::stat("net_short_writes");
        }
        d.flying.push_back(buf[..n].to_vec());
        drop(d);
        let us = draw(link.id, |r| if r.pm(100) { 2000 + r.below(5000) as u32 } else { r.below(300) as u32 }) as u64;
        if us > 1999 {
            simrt::stat("net_slow_deliveries");
        }
        let l2 = link.clone();
        simrt::spawn_on(0, 0, "deliver", true, async move {
            simrt::sleep_us(us).await;
            let mut d = l2.dirs[side].lock().unwrap();
            if let Some(c) = d.flying.pop_front() {
                d.ready.extend(c);
                d.wake();
                drop(d);
                simrt::stat("net_deliveries");
            }
        });
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.link.cut();
        Poll::Ready(Ok(()))
    }
}
impl AsyncRead for End {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let link = self.link.clone();
        let mut d = link.dirs[1 - self.side].lock().unwrap();
        if d.ready.is_empty() {
            if d.closed {
                return Poll::Ready(Ok(0));
            }
            d.reader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let have = d.ready.len().min(buf.len());
        let k = draw(link.id, |r| if r.pm(200) { 1 + r.below(16) as u32 } else { 0 }) as usize;
        let n = if k == 0 { have } else { k.min(have) };
        for b in buf[..n].iter_mut() {
            *b = d.ready.pop_front().unwrap();
        }
        Poll::Ready(Ok(n))
    }
}
