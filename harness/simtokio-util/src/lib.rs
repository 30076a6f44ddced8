//! A facade over tokio-util: all of it is the real one, but the tasks a TaskTracker
//! spawns are scheduled like those of the simulated `tokio::spawn`.
pub use real_util::*;

pub mod task {
    pub use real_util::task::*;
    use simtokio::sim::Jitter;
    use std::future::Future;
    use std::ops::Deref;

    #[derive(Clone, Debug, Default)]
    pub struct TaskTracker(real_util::task::TaskTracker);

    impl TaskTracker {
        pub fn new() -> Self {
            Self::default()
        }
        #[track_caller]
        pub fn spawn<F>(&self, task: F) -> simtokio::task::JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            self.0.spawn(Jitter::new(task))
        }
    }
    impl Deref for TaskTracker {
        type Target = real_util::task::TaskTracker;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
}
