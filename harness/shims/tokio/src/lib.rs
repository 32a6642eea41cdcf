//! Stand-in for tokio: tasks are polled by the harness, one message at a time (select! never has two ready branches).
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

thread_local! {
    static TASKS: RefCell<Vec<Option<Pin<Box<dyn Future<Output = ()>>>>>> = RefCell::new(vec![]);
}
pub struct JoinHandle<T>(std::marker::PhantomData<T>);
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
{
    let g = async move {
        f.await;
    };
    TASKS.with(|t| t.borrow_mut().push(Some(Box::pin(g))));
    JoinHandle(std::marker::PhantomData)
}
pub mod task {
    pub use super::spawn;
    pub use super::JoinHandle;
}
struct Noop;
impl Wake for Noop {
    fn wake(self: Arc<Self>) {}
}
/// Forget all tasks.
pub fn reset() {
    TASKS.with(|t| t.borrow_mut().clear());
}
/// Let every task run until it waits again; false when one ended or panicked.
pub fn run_until_idle() -> bool {
    let waker = Waker::from(Arc::new(Noop));
    let mut cx = Context::from_waker(&waker);
    let n = TASKS.with(|t| t.borrow().len());
    let mut alive = true;
    for i in 0..n {
        let task = TASKS.with(|t| t.borrow_mut()[i].take());
        if let Some(mut task) = task {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| task.as_mut().poll(&mut cx))) {
                Ok(Poll::Pending) => TASKS.with(|t| t.borrow_mut()[i] = Some(task)),
                _ => alive = false,
            }
        } else {
            alive = false;
        }
    }
    alive
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    let waker = Waker::from(Arc::new(Noop));
    let mut cx = Context::from_waker(&waker);
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
}
#[doc(hidden)]
pub struct YieldOnce(pub bool);
impl Future for YieldOnce {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            Poll::Pending
        }
    }
}
#[macro_export]
macro_rules! select {
    (biased; $($rest:tt)*) => { $crate::select!($($rest)*) };
    ( $( $p:pat = $f:expr => $b:block $(,)? )+ ) => {
        {
            while !(false $( || $f.ready_now() )+) {
                $crate::YieldOnce(false).await;
            }
            $(
                if $f.ready_now() {
                    #[allow(unused_variables, irrefutable_let_patterns)]
                    if let Some($p) = $f.take_now() {
                        $b
                    }
                } else
            )+
            {
            }
        }
    };
}
