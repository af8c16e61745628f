//! A stand-in for the parts of glommio 0.9 that laya can reach, with nothing behind it but memory.
//!
//! There is one shard. Tasks, sockets, files and timers live in a thread-local `World`; nothing runs
//! unless the checker says so through `sim`: it polls a chosen runnable task, or delivers a chosen
//! environment event (a connection arrives, bytes arrive, the peer resets, room to write, an open
//! completes). Every interleaving the checker can ask for is one that a single glommio executor
//! permits: tasks only run one at a time, events are only observed at poll points.

#![allow(clippy::new_without_default, clippy::type_complexity)]

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::fmt;
use std::future::Future;
use std::io as sio;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

pub use enclose::enclose;
pub use scopeguard::defer;

pub type Result<T, V> = std::result::Result<T, GlommioError<V>>;

pub enum ResourceType<T> {
    Semaphore { requested: u64, available: u64 },
    RwLock,
    Channel(T),
    File(String),
    Gate,
}
#[derive(Debug)]
pub enum ExecutorErrorKind {
    InvalidId(usize),
}
#[derive(Debug)]
pub enum BuilderErrorKind {
    NonExistentCpus { cpu: usize },
    InsufficientCpus { required: usize, available: usize },
    NrShards { minimum: usize, shards: usize },
    ThreadPanic(String),
}

pub enum GlommioError<T> {
    IoError(sio::Error),
    EnhancedIoError { source: sio::Error, op: &'static str, path: Option<std::path::PathBuf>, fd: Option<i32> },
    ExecutorError(ExecutorErrorKind),
    BuilderError(BuilderErrorKind),
    Closed(ResourceType<T>),
    CanNotBeClosed(ResourceType<T>, &'static str),
    WouldBlock(ResourceType<T>),
    TimedOut(Duration),
}
impl<T> From<sio::Error> for GlommioError<T> {
    fn from(e: sio::Error) -> Self {
        GlommioError::IoError(e)
    }
}
impl<T> fmt::Display for GlommioError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            GlommioError::IoError(e) => write!(f, "IO error occurred: {e}"),
            GlommioError::EnhancedIoError { source, op, path, .. } => write!(f, "{source}, op: {op} path: {path:?}"),
            GlommioError::ExecutorError(e) => write!(f, "Executor error: {e:?}"),
            GlommioError::BuilderError(e) => write!(f, "Builder error: {e:?}"),
            GlommioError::Closed(_) => write!(f, "closed"),
            GlommioError::CanNotBeClosed(_, s) => write!(f, "can not be closed: {s}"),
            GlommioError::WouldBlock(_) => write!(f, "operation would block"),
            GlommioError::TimedOut(d) => write!(f, "Operation timed out after {d:?}"),
        }
    }
}
impl<T> fmt::Debug for GlommioError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "GlommioError({self})")
    }
}
impl<T> std::error::Error for GlommioError<T> {}
impl<T> GlommioError<T> {
    pub fn raw_os_error(&self) -> Option<i32> {
        match self {
            GlommioError::IoError(e) => e.raw_os_error(),
            GlommioError::EnhancedIoError { source, .. } => source.raw_os_error(),
            _ => None,
        }
    }
}
impl<T> From<GlommioError<T>> for sio::Error {
    fn from(e: GlommioError<T>) -> sio::Error {
        match e {
            GlommioError::IoError(e) => e,
            GlommioError::EnhancedIoError { source, .. } => source,
            GlommioError::TimedOut(_) => sio::Error::new(sio::ErrorKind::TimedOut, "timed out"),
            GlommioError::WouldBlock(_) => sio::ErrorKind::WouldBlock.into(),
            other => sio::Error::new(sio::ErrorKind::Other, format!("{other}")),
        }
    }
}

// ---------------------------------------------------------------------------------------- world

struct TaskWaker {
    id: usize,
    queue: Arc<Mutex<VecDeque<usize>>>,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        let mut q = self.queue.lock().unwrap();
        if !q.contains(&self.id) {
            q.push_back(self.id);
        }
    }
}

type BoxFut = Pin<Box<dyn Future<Output = ()>>>;

#[derive(Default)]
struct Conn {
    inbound: VecDeque<u8>,
    eof: bool,
    in_err: Option<i32>,
    rd: Option<Waker>,
    out: Vec<u8>,
    window: usize,
    out_err: Option<i32>,
    wr: Option<Waker>,
    accepted: bool,
    read_polled: bool,
    dropped: bool,
    write_shut: bool,
    addr_err: bool,
}

#[derive(Default)]
struct Listener {
    addr: Option<std::net::SocketAddr>,
    pending: VecDeque<std::result::Result<usize, i32>>,
    wk: Option<Waker>,
    closed: bool,
}

struct OpenOp {
    path: std::path::PathBuf,
    done: bool,
    wk: Option<Waker>,
    abandoned: bool,
}

#[derive(Default)]
struct World {
    tasks: Vec<Option<BoxFut>>,
    live: usize,
    queue: Arc<Mutex<VecDeque<usize>>>,
    conns: Vec<Conn>,
    listeners: Vec<Listener>,
    opens: Vec<OpenOp>,
    files: BTreeMap<Vec<u8>, bool>,
    timers: Vec<(u64, u64, Option<Waker>)>,
    now: u64,
    next_timer: u64,
    polls: u64,
    other_file_access: Vec<String>,
    sem_created: Vec<u64>,
}

thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
}
fn w<T>(f: impl FnOnce(&mut World) -> T) -> T {
    W.with(|x| f(&mut x.borrow_mut()))
}

fn spawn_raw(f: BoxFut) -> usize {
    w(|w| {
        w.tasks.push(Some(f));
        w.live += 1;
        let id = w.tasks.len() - 1;
        w.queue.lock().unwrap().push_back(id);
        id
    })
}

/// What the checker sees and drives.
pub mod sim {
    use super::*;

    /// Forgets everything (dropping all tasks) and starts an empty world.
    pub fn reset() {
        let old: Vec<Option<BoxFut>> = w(|w| std::mem::take(&mut w.tasks));
        drop(old);
        let old = w(std::mem::take);
        drop(old);
    }
    pub fn add_file(p: &str, is_dir: bool) {
        w(|w| w.files.insert(p.as_bytes().to_vec(), is_dir));
    }
    /// Runnable tasks in the executor's FIFO order.
    pub fn ready() -> Vec<usize> {
        w(|w| w.queue.lock().unwrap().iter().copied().collect())
    }
    #[derive(Debug, PartialEq, Eq)]
    pub enum Polled {
        Pending,
        Done,
        Panicked,
    }
    pub fn poll(id: usize) -> Polled {
        let (t, queue) = w(|w| {
            let mut q = w.queue.lock().unwrap();
            if let Some(p) = q.iter().position(|x| *x == id) {
                q.remove(p);
            }
            drop(q);
            w.polls += 1;
            (w.tasks[id].take(), w.queue.clone())
        });
        let Some(mut t) = t else { return Polled::Done };
        let waker = Waker::from(Arc::new(TaskWaker { id, queue }));
        let mut cx = Context::from_waker(&waker);
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.as_mut().poll(&mut cx))) {
            Ok(Poll::Pending) => {
                w(|w| w.tasks[id] = Some(t));
                Polled::Pending
            }
            Ok(Poll::Ready(())) => {
                w(|w| w.live -= 1);
                drop(t);
                Polled::Done
            }
            Err(_) => {
                w(|w| w.live -= 1);
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(t)));
                Polled::Panicked
            }
        }
    }
    pub fn polls() -> u64 {
        w(|w| w.polls)
    }
    pub fn live_tasks() -> usize {
        w(|w| w.live)
    }
    pub fn task_alive(id: usize) -> bool {
        w(|w| w.tasks.get(id).is_some_and(|t| t.is_some()))
    }
    pub fn listening() -> bool {
        w(|w| w.listeners.iter().any(|l| !l.closed))
    }
    pub fn listen_addr() -> Option<std::net::SocketAddr> {
        w(|w| w.listeners.iter().find(|l| !l.closed).and_then(|l| l.addr))
    }
    fn wake(x: Option<Waker>) {
        if let Some(x) = x {
            x.wake()
        }
    }
    fn enqueue(r: std::result::Result<usize, i32>) {
        let k = w(|w| {
            let l = w.listeners.iter_mut().find(|l| !l.closed);
            l.and_then(|l| {
                l.pending.push_back(r);
                l.wk.take()
            })
        });
        wake(k);
    }
    /// A client connects; the id names the connection from then on.
    pub fn connect(window: usize) -> usize {
        let id = w(|w| {
            w.conns.push(Conn { window, ..Conn::default() });
            w.conns.len() - 1
        });
        enqueue(Ok(id));
        id
    }
    /// The next accept fails with this errno.
    pub fn accept_error(errno: i32) {
        enqueue(Err(errno));
    }
    /// The socket's addresses can no longer be asked for (the peer is gone already).
    pub fn break_addr(c: usize) {
        w(|w| w.conns[c].addr_err = true);
    }
    pub fn send(c: usize, b: &[u8]) {
        let k = w(|w| {
            w.conns[c].inbound.extend(b);
            w.conns[c].rd.take()
        });
        wake(k);
    }
    /// The client has shut down its sending side.
    pub fn eof(c: usize) {
        let k = w(|w| {
            w.conns[c].eof = true;
            w.conns[c].rd.take()
        });
        wake(k);
    }
    /// The client has closed its socket: its input ends and nothing can be sent to it.
    pub fn close(c: usize) {
        let k = w(|w| {
            let c = &mut w.conns[c];
            c.eof = true;
            c.out_err = Some(32);
            (c.rd.take(), c.wr.take())
        });
        wake(k.0);
        wake(k.1);
    }
    /// The connection is reset: reads and writes fail.
    pub fn reset_conn(c: usize) {
        let k = w(|w| {
            let c = &mut w.conns[c];
            c.in_err = Some(104);
            c.out_err = Some(32);
            c.inbound.clear();
            (c.rd.take(), c.wr.take())
        });
        wake(k.0);
        wake(k.1);
    }
    /// The peer accepts `n` more bytes.
    pub fn allow_write(c: usize, n: usize) {
        let k = w(|w| {
            w.conns[c].window = w.conns[c].window.saturating_add(n);
            w.conns[c].wr.take()
        });
        wake(k);
    }
    pub fn write_blocked(c: usize) -> bool {
        w(|w| w.conns[c].wr.is_some())
    }
    pub fn output(c: usize) -> Vec<u8> {
        w(|w| w.conns[c].out.clone())
    }
    pub fn output_len(c: usize) -> usize {
        w(|w| w.conns[c].out.len())
    }
    pub fn accepted(c: usize) -> bool {
        w(|w| w.conns[c].accepted)
    }
    /// The server has closed the connection (dropped its stream or shut down writing).
    pub fn closed(c: usize) -> bool {
        w(|w| w.conns[c].dropped || w.conns[c].write_shut)
    }
    pub fn dropped(c: usize) -> bool {
        w(|w| w.conns[c].dropped)
    }
    /// Connections whose bytes the server has begun to ask for and not yet given up.
    pub fn being_served() -> usize {
        w(|w| w.conns.iter().filter(|c| c.read_polled && !c.dropped).count())
    }
    pub fn unread(c: usize) -> usize {
        w(|w| w.conns[c].inbound.len())
    }
    /// Paths of files opened so far.
    pub fn opens() -> Vec<std::path::PathBuf> {
        w(|w| w.opens.iter().map(|o| o.path.clone()).collect())
    }
    pub fn other_file_access() -> Vec<String> {
        w(|w| w.other_file_access.clone())
    }
    /// Opens still in progress.
    pub fn pending_opens() -> Vec<usize> {
        w(|w| w.opens.iter().enumerate().filter(|(_, o)| !o.done && !o.abandoned).map(|(i, _)| i).collect())
    }
    pub fn complete_open(i: usize) {
        let k = w(|w| {
            w.opens[i].done = true;
            w.opens[i].wk.take()
        });
        wake(k);
    }
    pub fn pending_timers() -> usize {
        w(|w| w.timers.iter().filter(|t| t.2.is_some()).count())
    }
    /// Virtual time jumps to the next deadline.
    pub fn fire_timer() {
        let k = w(|w| {
            let i = w.timers.iter().enumerate().filter(|(_, t)| t.2.is_some()).min_by_key(|(_, t)| t.0).map(|(i, _)| i);
            i.and_then(|i| {
                w.now = w.now.max(w.timers[i].0);
                w.timers[i].2.take()
            })
        });
        wake(k);
    }
    pub fn spawn(f: impl Future<Output = ()> + 'static) -> usize {
        spawn_raw(Box::pin(f))
    }
    pub fn semaphores() -> Vec<u64> {
        w(|w| w.sem_created.clone())
    }
}

// ---------------------------------------------------------------------------------------- tasks

pub struct Task<T> {
    id: usize,
    slot: Rc<RefCell<(Option<T>, Option<Waker>)>>,
    detached: bool,
}
pub type ScopedTask<'a, T> = (Task<T>, std::marker::PhantomData<&'a ()>);

pub mod task {
    pub struct JoinHandle<T>(pub(crate) super::Task<T>);
    impl<T> std::future::Future for JoinHandle<T> {
        type Output = Option<T>;
        fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Option<T>> {
            std::pin::Pin::new(&mut self.0).poll(cx).map(Some)
        }
    }
    impl<T> Drop for JoinHandle<T> {
        fn drop(&mut self) {
            self.0.detached = true;
        }
    }
}

impl<T: 'static> Task<T> {
    pub fn detach(mut self) -> task::JoinHandle<T> {
        self.detached = true;
        task::JoinHandle(self)
    }
    pub async fn cancel(self) -> Option<T> {
        self.slot.borrow_mut().0.take()
    }
}
impl<T> Drop for Task<T> {
    fn drop(&mut self) {
        if !self.detached {
            let t = w(|w| {
                let t = w.tasks.get_mut(self.id).and_then(|t| t.take());
                if t.is_some() {
                    w.live -= 1;
                }
                t
            });
            drop(t);
        }
    }
}
impl<T> Future for Task<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let mut s = self.slot.borrow_mut();
        match s.0.take() {
            Some(x) => Poll::Ready(x),
            None => {
                s.1 = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
impl<T> Unpin for Task<T> {}

pub fn spawn_local<T: 'static>(f: impl Future<Output = T> + 'static) -> Task<T> {
    let slot: Rc<RefCell<(Option<T>, Option<Waker>)>> = Rc::new(RefCell::new((None, None)));
    let s2 = slot.clone();
    let id = spawn_raw(Box::pin(async move {
        let r = f.await;
        let wk = {
            let mut s = s2.borrow_mut();
            s.0 = Some(r);
            s.1.take()
        };
        if let Some(wk) = wk {
            wk.wake()
        }
    }));
    Task { id, slot, detached: false }
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct TaskQueueHandle;
#[derive(Clone, Copy, Debug)]
pub enum Shares {
    Static(usize),
}
impl Default for Shares {
    fn default() -> Self {
        Shares::Static(1000)
    }
}
#[derive(Clone, Copy, Debug)]
pub enum Latency {
    Matters(Duration),
    NotImportant,
}
pub fn spawn_local_into<T: 'static>(f: impl Future<Output = T> + 'static, _: TaskQueueHandle) -> Result<Task<T>, ()> {
    Ok(spawn_local(f))
}
pub struct ExecutorProxy {}
pub fn executor() -> ExecutorProxy {
    ExecutorProxy {}
}
impl ExecutorProxy {
    pub fn id(&self) -> usize {
        1
    }
    pub fn spawn_local<T: 'static>(&self, f: impl Future<Output = T> + 'static) -> Task<T> {
        spawn_local(f)
    }
    pub fn spawn_local_into<T: 'static>(&self, f: impl Future<Output = T> + 'static, q: TaskQueueHandle) -> Result<Task<T>, ()> {
        spawn_local_into(f, q)
    }
    pub fn current_task_queue(&self) -> TaskQueueHandle {
        TaskQueueHandle
    }
    pub fn create_task_queue(&self, _: Shares, _: Latency, _: &str) -> TaskQueueHandle {
        TaskQueueHandle
    }
    pub async fn yield_if_needed(&self) {
        yield_if_needed().await
    }
    pub async fn yield_now(&self) {
        yield_if_needed().await
    }
    pub fn yield_task_queue_now(&self) -> impl Future<Output = ()> {
        yield_if_needed()
    }
    pub fn need_preempt(&self) -> bool {
        false
    }
    pub async fn spawn_blocking<F: FnOnce() -> R + Send + 'static, R: Send + 'static>(&self, f: F) -> R {
        yield_if_needed().await;
        f()
    }
}
pub async fn yield_if_needed() {
    let mut first = true;
    std::future::poll_fn(move |cx| {
        if first {
            first = false;
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}

// ------------------------------------------------------------------------------------ executors

#[derive(Clone, Debug)]
pub struct CpuSet(Vec<usize>);
impl CpuSet {
    pub fn online() -> Result<CpuSet, ()> {
        Ok(CpuSet(vec![0]))
    }
    pub fn filter<F: FnMut(&usize) -> bool>(self, _: F) -> Self {
        self
    }
    pub fn is_empty(&self) -> bool {
        false
    }
    pub fn len(&self) -> usize {
        1
    }
}
#[derive(Clone, Debug)]
pub enum PoolPlacement {
    Unbound(usize),
    Fenced(usize, CpuSet),
    MaxSpread(usize, Option<CpuSet>),
    MaxPack(usize, Option<CpuSet>),
    Custom(Vec<Vec<usize>>),
}
#[derive(Clone, Debug)]
pub enum Placement {
    Unbound,
    Fixed(usize),
    Fenced(CpuSet),
}
pub struct LocalExecutorPoolBuilder {}
macro_rules! setters {
    ($($n:ident: $t:ty),*) => { $(pub fn $n(self, _: $t) -> Self { self })* };
}
impl LocalExecutorPoolBuilder {
    pub fn new(_: PoolPlacement) -> Self {
        LocalExecutorPoolBuilder {}
    }
    setters!(name: &str, io_memory: usize, ring_depth: usize, spin_before_park: Duration, preempt_timer: Duration, record_io_latencies: bool, detect_stalls: bool);
    pub fn on_all_shards<G, F, T>(self, g: G) -> Result<PoolThreadHandles<T>, ()>
    where
        G: FnOnce() -> F + Clone + Send + 'static,
        F: Future<Output = T> + 'static,
        T: Send + 'static,
    {
        let f = (g.clone())();
        spawn_raw(Box::pin(async move {
            f.await;
        }));
        Ok(PoolThreadHandles(std::marker::PhantomData))
    }
}
pub struct PoolThreadHandles<T>(std::marker::PhantomData<T>);
impl<T> PoolThreadHandles<T> {
    pub fn join_all(self) -> Vec<Result<T, ()>> {
        vec![]
    }
}
pub struct LocalExecutorBuilder {}
impl LocalExecutorBuilder {
    pub fn new(_: Placement) -> Self {
        LocalExecutorBuilder {}
    }
    setters!(name: &str, io_memory: usize, ring_depth: usize, spin_before_park: Duration, preempt_timer: Duration, record_io_latencies: bool);
    pub fn spawn<G, F, T>(self, g: G) -> Result<ExecutorJoinHandle<T>, ()>
    where
        G: FnOnce() -> F + Send + 'static,
        F: Future<Output = T> + 'static,
        T: Send + 'static,
    {
        let f = g();
        spawn_raw(Box::pin(async move {
            f.await;
        }));
        Ok(ExecutorJoinHandle(std::marker::PhantomData))
    }
}
pub struct ExecutorJoinHandle<T>(std::marker::PhantomData<T>);
impl<T> ExecutorJoinHandle<T> {
    pub fn join(self) -> Result<(), ()> {
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------ net

pub mod net {
    use super::*;
    use std::net::{Shutdown, SocketAddr, ToSocketAddrs};

    type Result<T> = super::Result<T, ()>;

    #[derive(Debug)]
    pub struct TcpListener {
        id: usize,
    }
    impl TcpListener {
        pub fn bind<A: ToSocketAddrs>(a: A) -> Result<TcpListener> {
            let a = a.to_socket_addrs()?.next();
            Ok(TcpListener {
                id: w(|w| {
                    w.listeners.push(Listener { addr: a, ..Listener::default() });
                    w.listeners.len() - 1
                }),
            })
        }
        fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<Result<TcpStream>> {
            w(|w| {
                let l = &mut w.listeners[self.id];
                match l.pending.pop_front() {
                    Some(Ok(c)) => {
                        w.conns[c].accepted = true;
                        Poll::Ready(Ok(TcpStream { id: c }))
                    }
                    Some(Err(e)) => Poll::Ready(Err(sio::Error::from_raw_os_error(e).into())),
                    None => {
                        l.wk = Some(cx.waker().clone());
                        Poll::Pending
                    }
                }
            })
        }
        pub async fn accept(&self) -> Result<TcpStream> {
            std::future::poll_fn(|cx| self.poll_accept(cx)).await
        }
        pub async fn shared_accept(&self) -> Result<AcceptedTcpStream> {
            Ok(AcceptedTcpStream(self.accept().await?))
        }
        pub fn incoming(&self) -> impl futures_lite::Stream<Item = Result<TcpStream>> + Unpin + '_ {
            futures_lite::stream::poll_fn(move |cx| self.poll_accept(cx).map(Some))
        }
        pub fn local_addr(&self) -> Result<SocketAddr> {
            Ok(w(|w| w.listeners[self.id].addr).unwrap())
        }
        pub fn set_ttl(&self, _: u32) -> Result<()> {
            Ok(())
        }
        pub fn ttl(&self) -> Result<u32> {
            Ok(64)
        }
    }
    impl Drop for TcpListener {
        fn drop(&mut self) {
            w(|w| {
                if let Some(l) = w.listeners.get_mut(self.id) {
                    l.closed = true;
                    l.wk = None;
                }
            });
        }
    }
    pub struct AcceptedTcpStream(TcpStream);
    impl AcceptedTcpStream {
        pub fn bind_to_executor(self) -> TcpStream {
            self.0
        }
        pub fn peer_addr(&self) -> Result<SocketAddr> {
            self.0.peer_addr()
        }
    }

    #[derive(Debug)]
    pub struct TcpStream {
        id: usize,
    }
    impl TcpStream {
        fn addr(&self) -> Result<SocketAddr> {
            if w(|w| w.conns[self.id].addr_err) {
                return Err(sio::Error::from_raw_os_error(107).into());
            }
            Ok(SocketAddr::from(([127, 0, 0, 1], 40000 + self.id as u16)))
        }
        pub fn local_addr(&self) -> Result<SocketAddr> {
            self.addr()
        }
        pub fn peer_addr(&self) -> Result<SocketAddr> {
            self.addr()
        }
        pub fn set_nodelay(&self, _: bool) -> Result<()> {
            Ok(())
        }
        pub fn nodelay(&self) -> Result<bool> {
            Ok(false)
        }
        pub fn set_ttl(&self, _: u32) -> Result<()> {
            Ok(())
        }
        pub fn set_read_timeout(&self, _: Option<Duration>) -> Result<()> {
            Ok(())
        }
        pub fn set_write_timeout(&self, _: Option<Duration>) -> Result<()> {
            Ok(())
        }
        pub async fn shutdown(&self, _: Shutdown) -> Result<()> {
            w(|w| w.conns[self.id].write_shut = true);
            Ok(())
        }
        pub fn buffered(self) -> TcpStream {
            self
        }
    }
    impl futures_lite::AsyncRead for TcpStream {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<sio::Result<usize>> {
            w(|w| {
                let c = &mut w.conns[self.id];
                c.read_polled = true;
                if let Some(e) = c.in_err {
                    return Poll::Ready(Err(sio::Error::from_raw_os_error(e)));
                }
                if c.inbound.is_empty() {
                    if c.eof {
                        return Poll::Ready(Ok(0));
                    }
                    c.rd = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                let n = buf.len().min(c.inbound.len());
                for b in buf.iter_mut().take(n) {
                    *b = c.inbound.pop_front().unwrap();
                }
                Poll::Ready(Ok(n))
            })
        }
    }
    impl futures_lite::AsyncWrite for TcpStream {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<sio::Result<usize>> {
            w(|w| {
                let c = &mut w.conns[self.id];
                if let Some(e) = c.out_err {
                    return Poll::Ready(Err(sio::Error::from_raw_os_error(e)));
                }
                if c.write_shut {
                    return Poll::Ready(Err(sio::Error::from_raw_os_error(32)));
                }
                if c.window == 0 && !buf.is_empty() {
                    c.wr = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                let n = buf.len().min(c.window);
                c.out.extend_from_slice(&buf[..n]);
                c.window -= n;
                Poll::Ready(Ok(n))
            })
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<sio::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<sio::Result<()>> {
            w(|w| w.conns[self.id].write_shut = true);
            Poll::Ready(Ok(()))
        }
    }
    impl Drop for TcpStream {
        fn drop(&mut self) {
            w(|w| {
                if let Some(c) = w.conns.get_mut(self.id) {
                    c.dropped = true;
                    c.rd = None;
                    c.wr = None;
                }
            });
        }
    }
}

// ----------------------------------------------------------------------------------------- sync

pub mod sync {
    use super::*;
    type Result<T> = super::Result<T, ()>;

    struct SemState {
        avail: u64,
        closed: bool,
        waiters: VecDeque<Rc<Waiter>>,
    }
    struct Waiter {
        units: u64,
        granted: Cell<bool>,
        wk: RefCell<Option<Waker>>,
    }
    /// First come, first served, like glommio's.
    pub struct Semaphore {
        st: RefCell<SemState>,
    }
    impl Semaphore {
        pub fn new(avail: u64) -> Semaphore {
            w(|w| w.sem_created.push(avail));
            Semaphore { st: RefCell::new(SemState { avail, closed: false, waiters: VecDeque::new() }) }
        }
        pub fn available(&self) -> u64 {
            self.st.borrow().avail
        }
        pub async fn acquire(&self, units: u64) -> Result<()> {
            let wt = {
                let mut s = self.st.borrow_mut();
                if s.closed {
                    return Err(GlommioError::Closed(ResourceType::Semaphore { requested: units, available: s.avail }));
                }
                if s.waiters.is_empty() && s.avail >= units {
                    s.avail -= units;
                    return Ok(());
                }
                let wt = Rc::new(Waiter { units, granted: Cell::new(false), wk: RefCell::new(None) });
                s.waiters.push_back(wt.clone());
                wt
            };
            struct G<'a>(&'a Semaphore, Rc<Waiter>, bool);
            impl Drop for G<'_> {
                fn drop(&mut self) {
                    if !self.2 {
                        if self.1.granted.get() {
                            self.0.signal(self.1.units);
                        } else {
                            let mut s = self.0.st.borrow_mut();
                            if let Some(p) = s.waiters.iter().position(|x| Rc::ptr_eq(x, &self.1)) {
                                s.waiters.remove(p);
                            }
                        }
                    }
                }
            }
            let mut g = G(self, wt, false);
            let r = std::future::poll_fn(|cx| {
                if g.1.granted.get() {
                    Poll::Ready(Ok(()))
                } else if self.st.borrow().closed {
                    Poll::Ready(Err(()))
                } else {
                    *g.1.wk.borrow_mut() = Some(cx.waker().clone());
                    Poll::Pending
                }
            })
            .await;
            match r {
                Ok(()) => {
                    g.2 = true;
                    Ok(())
                }
                Err(()) => Err(GlommioError::Closed(ResourceType::Semaphore { requested: units, available: 0 })),
            }
        }
        pub fn try_acquire(&self, units: u64) -> Result<bool> {
            let mut s = self.st.borrow_mut();
            if s.closed {
                return Err(GlommioError::Closed(ResourceType::Semaphore { requested: units, available: s.avail }));
            }
            if s.waiters.is_empty() && s.avail >= units {
                s.avail -= units;
                return Ok(true);
            }
            Ok(false)
        }
        pub fn signal(&self, units: u64) {
            let mut wake = vec![];
            {
                let mut s = self.st.borrow_mut();
                s.avail += units;
                while let Some(f) = s.waiters.front() {
                    if s.avail < f.units {
                        break;
                    }
                    let f = s.waiters.pop_front().unwrap();
                    s.avail -= f.units;
                    f.granted.set(true);
                    wake.extend(f.wk.borrow_mut().take());
                }
            }
            for x in wake {
                x.wake();
            }
        }
        pub fn close(&self) {
            let mut s = self.st.borrow_mut();
            s.closed = true;
            let ws: Vec<_> = s.waiters.drain(..).collect();
            drop(s);
            for x in ws {
                let k = x.wk.borrow_mut().take();
                if let Some(k) = k {
                    k.wake()
                }
            }
        }
        pub async fn acquire_permit(&self, units: u64) -> Result<Permit<'_>> {
            self.acquire(units).await?;
            Ok(Permit { units, sem: self })
        }
        pub async fn acquire_static_permit(self: &Rc<Self>, units: u64) -> Result<StaticPermit> {
            self.acquire(units).await?;
            Ok(StaticPermit { units, sem: self.clone() })
        }
        fn would_block(&self, units: u64) -> GlommioError<()> {
            GlommioError::WouldBlock(ResourceType::Semaphore { requested: units, available: self.available() })
        }
        pub fn try_acquire_permit(&self, units: u64) -> Result<Permit<'_>> {
            if self.try_acquire(units)? {
                Ok(Permit { units, sem: self })
            } else {
                Err(self.would_block(units))
            }
        }
        pub fn try_acquire_static_permit(self: &Rc<Self>, units: u64) -> Result<StaticPermit> {
            if self.try_acquire(units)? {
                Ok(StaticPermit { units, sem: self.clone() })
            } else {
                Err(self.would_block(units))
            }
        }
    }
    pub struct Permit<'a> {
        units: u64,
        sem: &'a Semaphore,
    }
    impl Drop for Permit<'_> {
        fn drop(&mut self) {
            self.sem.signal(self.units);
        }
    }
    pub struct StaticPermit {
        units: u64,
        sem: Rc<Semaphore>,
    }
    impl StaticPermit {
        pub fn close(&self) {
            self.sem.close()
        }
    }
    impl Drop for StaticPermit {
        fn drop(&mut self) {
            self.sem.signal(self.units);
        }
    }
}

// ---------------------------------------------------------------------------------------- timer

pub mod timer {
    use super::*;
    pub async fn sleep(d: Duration) {
        let id = w(|w| {
            w.next_timer += 1;
            let at = w.now + d.as_millis() as u64;
            w.timers.push((at, w.next_timer, None));
            w.next_timer
        });
        let mut armed = false;
        std::future::poll_fn(move |cx| {
            w(|w| {
                let t = w.timers.iter_mut().find(|t| t.1 == id).unwrap();
                if armed && t.2.is_none() {
                    return Poll::Ready(());
                }
                armed = true;
                t.2 = Some(cx.waker().clone());
                Poll::Pending
            })
        })
        .await
    }
    #[derive(Debug)]
    pub struct Timer(Duration, Option<()>);
    impl Timer {
        pub fn new(d: Duration) -> Timer {
            Timer(d, None)
        }
    }
    impl std::future::IntoFuture for Timer {
        type Output = ();
        type IntoFuture = Pin<Box<dyn Future<Output = ()>>>;
        fn into_future(self) -> Self::IntoFuture {
            Box::pin(sleep(self.0))
        }
    }
}

// ------------------------------------------------------------------------------------------- io

pub mod io {
    use super::*;
    use std::os::unix::ffi::OsStrExt;
    use std::path::{Path, PathBuf};

    /// Resolves a path the way the kernel would on the simulated file system (no symlinks).
    fn lookup(p: &Path) -> std::result::Result<bool, i32> {
        let b = p.as_os_str().as_bytes();
        if b.contains(&0) {
            return Err(22);
        }
        if b.is_empty() {
            return Err(2);
        }
        let mut cur: Vec<&[u8]> = vec![];
        if b[0] != b'/' {
            return Err(2); // the checker always configures an absolute root
        }
        let trailing = b.ends_with(b"/") || b.ends_with(b"/.") || b.ends_with(b"/..");
        for c in b.split(|x| *x == b'/') {
            match c {
                b"" | b"." => {}
                b".." => {
                    cur.pop();
                }
                c => {
                    // what is walked through must be a directory
                    let here = join(&cur);
                    if !cur.is_empty() && w(|w| w.files.get(&here).copied()) != Some(true) {
                        return Err(20);
                    }
                    cur.push(c);
                }
            }
        }
        let full = join(&cur);
        if cur.is_empty() {
            return Ok(true);
        }
        match w(|w| w.files.get(&full).copied()) {
            None => Err(2),
            Some(false) if trailing => Err(20),
            Some(d) => Ok(d),
        }
    }
    fn join(c: &[&[u8]]) -> Vec<u8> {
        let mut v = vec![];
        for x in c {
            v.push(b'/');
            v.extend_from_slice(x);
        }
        v
    }

    async fn open(p: PathBuf) -> super::Result<PathBuf, ()> {
        struct G(usize, bool);
        impl Drop for G {
            fn drop(&mut self) {
                if !self.1 {
                    w(|w| {
                        if let Some(o) = w.opens.get_mut(self.0) {
                            o.abandoned = true
                        }
                    });
                }
            }
        }
        if p.as_os_str().as_bytes().contains(&0) {
            panic!("path contained null!"); // as glommio's reactor does
        }
        let i = w(|w| {
            w.opens.push(OpenOp { path: p.clone(), done: false, wk: None, abandoned: false });
            w.opens.len() - 1
        });
        let mut g = G(i, false);
        std::future::poll_fn(|cx| {
            w(|w| {
                if w.opens[i].done {
                    return Poll::Ready(());
                }
                w.opens[i].wk = Some(cx.waker().clone());
                Poll::Pending
            })
        })
        .await;
        g.1 = true;
        match lookup(&p) {
            Ok(_) => Ok(p),
            Err(e) => Err(GlommioError::EnhancedIoError { source: sio::Error::from_raw_os_error(e), op: "Opening", path: Some(p), fd: None }),
        }
    }

    macro_rules! file {
        ($n:ident) => {
            #[derive(Debug, Clone)]
            pub struct $n {
                path: PathBuf,
            }
            impl $n {
                pub async fn open<P: AsRef<Path>>(p: P) -> super::Result<$n, ()> {
                    Ok($n { path: open(p.as_ref().to_path_buf()).await? })
                }
                pub async fn create<P: AsRef<Path>>(p: P) -> super::Result<$n, ()> {
                    w(|w| w.other_file_access.push(format!("create {}", p.as_ref().display())));
                    Ok($n { path: open(p.as_ref().to_path_buf()).await? })
                }
                pub fn path(&self) -> Option<&Path> {
                    Some(&self.path)
                }
                pub async fn file_size(&self) -> super::Result<u64, ()> {
                    Ok(0)
                }
                pub async fn close(self) -> super::Result<(), ()> {
                    Ok(())
                }
                pub async fn remove(&self) -> super::Result<(), ()> {
                    w(|w| w.other_file_access.push(format!("remove {}", self.path.display())));
                    Ok(())
                }
                pub async fn rename<P: AsRef<Path>>(&self, p: P) -> super::Result<(), ()> {
                    w(|w| w.other_file_access.push(format!("rename {}", p.as_ref().display())));
                    Ok(())
                }
            }
        };
    }
    file!(DmaFile);
    file!(BufferedFile);

    #[derive(Debug)]
    pub struct ImmutableFile {
        path: PathBuf,
    }
    impl ImmutableFile {
        pub fn path(&self) -> Option<&Path> {
            Some(&self.path)
        }
        pub fn file_size(&self) -> u64 {
            0
        }
        pub async fn close(self) -> super::Result<(), ()> {
            Ok(())
        }
    }
    #[derive(Debug)]
    pub struct ImmutableFileBuilder<P: AsRef<Path>> {
        p: P,
    }
    impl<P: AsRef<Path>> ImmutableFileBuilder<P> {
        pub fn new(p: P) -> Self {
            ImmutableFileBuilder { p }
        }
        setters!(with_sequential_concurrency: usize, with_sync_on_close_disabled: bool, with_buffer_size: usize, with_pre_allocation: Option<u64>, with_hint_extent_size: Option<usize>);
        pub async fn build_existing(self) -> super::Result<ImmutableFile, ()> {
            Ok(ImmutableFile { path: open(self.p.as_ref().to_path_buf()).await? })
        }
    }
    #[derive(Debug, Default, Clone)]
    pub struct OpenOptions {}
    impl OpenOptions {
        pub fn new() -> Self {
            OpenOptions {}
        }
        pub fn read(&mut self, _: bool) -> &mut Self {
            self
        }
        pub async fn dma_open<P: AsRef<Path>>(&self, p: P) -> super::Result<DmaFile, ()> {
            DmaFile::open(p).await
        }
        pub async fn buffered_open<P: AsRef<Path>>(&self, p: P) -> super::Result<BufferedFile, ()> {
            BufferedFile::open(p).await
        }
    }
}
