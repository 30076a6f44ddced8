pub use real_tokio::task::*;

use crate::sim::Jitter;
use std::future::Future;
use std::ops::{Deref, DerefMut};

#[track_caller]
pub fn spawn<F>(future: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    real_tokio::task::spawn(Jitter::new(future))
}

#[derive(Debug)]
pub struct JoinSet<T>(real_tokio::task::JoinSet<T>);

impl<T> Default for JoinSet<T> {
    fn default() -> Self {
        Self(Default::default())
    }
}
impl<T: 'static> JoinSet<T> {
    pub fn new() -> Self {
        Self(real_tokio::task::JoinSet::new())
    }
    #[track_caller]
    pub fn spawn<F>(&mut self, task: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
        T: Send,
    {
        self.0.spawn(Jitter::new(task))
    }
}
impl<T> Deref for JoinSet<T> {
    type Target = real_tokio::task::JoinSet<T>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<T> DerefMut for JoinSet<T> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
