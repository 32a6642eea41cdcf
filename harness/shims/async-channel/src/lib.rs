//! Single-threaded stand-in for async-channel: same interface, driven by the harness's own executor.
use std::collections::VecDeque;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

pub struct Sender<T>(Arc<Mutex<VecDeque<T>>>);
pub struct Receiver<T>(Arc<Mutex<VecDeque<T>>>);
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        Sender(self.0.clone())
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        Receiver(self.0.clone())
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct RecvError;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum TryRecvError {
    Empty,
    Closed,
}
pub struct SendError<T>(pub T);
pub enum TrySendError<T> {
    Full(T),
    Closed(T),
}
impl<T> fmt::Debug for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("SendError")
    }
}
impl<T> fmt::Display for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("SendError")
    }
}
impl<T> std::error::Error for SendError<T> {}
impl<T> fmt::Debug for TrySendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("TrySendError")
    }
}
impl<T> fmt::Display for TrySendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("TrySendError")
    }
}
impl<T> std::error::Error for TrySendError<T> {}
impl fmt::Display for RecvError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("RecvError")
    }
}
impl std::error::Error for RecvError {}
impl fmt::Display for TryRecvError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("TryRecvError")
    }
}
impl std::error::Error for TryRecvError {}

pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    let q = Arc::new(Mutex::new(VecDeque::new()));
    (Sender(q.clone()), Receiver(q))
}
pub fn bounded<T>(_cap: usize) -> (Sender<T>, Receiver<T>) {
    unbounded()
}

impl<T> Sender<T> {
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        self.0.lock().unwrap().push_back(t);
        Ok(())
    }
    pub fn send_blocking(&self, t: T) -> Result<(), SendError<T>> {
        self.0.lock().unwrap().push_back(t);
        Ok(())
    }
    pub async fn send(&self, t: T) -> Result<(), SendError<T>> {
        self.0.lock().unwrap().push_back(t);
        Ok(())
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_closed(&self) -> bool {
        false
    }
}
pub struct Recv<'a, T>(&'a Receiver<T>);
impl<'a, T> Recv<'a, T> {
    /// A message is waiting.
    pub fn ready_now(&self) -> bool {
        !self.0.is_empty()
    }
    pub fn take_now(&self) -> Option<Result<T, RecvError>> {
        self.0 .0.lock().unwrap().pop_front().map(Ok)
    }
}
impl<'a, T> Future for Recv<'a, T> {
    type Output = Result<T, RecvError>;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        match self.take_now() {
            Some(v) => Poll::Ready(v),
            None => Poll::Pending,
        }
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Recv<'_, T> {
        Recv(self)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        self.0.lock().unwrap().pop_front().ok_or(TryRecvError::Empty)
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
