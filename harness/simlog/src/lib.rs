//! Stand-in for env_logger: accepts the same calls, so that the broker's entry point can run many
//! times in one process, quietly. What the broker logs is formatted, as it would be, and forgotten.
pub use log;
struct Null;
struct Nowhere;
impl std::fmt::Write for Nowhere {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        std::hint::black_box(s.as_ptr());
        Ok(())
    }
}
impl log::Log for Null {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) {
        let _ = std::fmt::write(&mut Nowhere, *r.args());
    }
    fn flush(&self) {}
}
static NULL: Null = Null;
fn install() {
    let _ = log::set_logger(&NULL);
    log::set_max_level(log::LevelFilter::Trace);
}
#[derive(Default)]
pub struct Builder;
pub type Logger = ();
#[derive(Default)]
pub struct Env;
impl Env {
    pub fn new() -> Self { Env }
    pub fn default_filter_or<S>(self, _: S) -> Self { Env }
    pub fn filter_or<A, B>(self, _: A, _: B) -> Self { Env }
}
impl From<&str> for Env { fn from(_: &str) -> Self { Env } }
impl Builder {
    pub fn new() -> Self { Builder }
    pub fn from_default_env() -> Self { Builder }
    pub fn from_env<E: Into<Env>>(_: E) -> Self { Builder }
    pub fn filter(&mut self, _: Option<&str>, _: log::LevelFilter) -> &mut Self { self }
    pub fn filter_level(&mut self, _: log::LevelFilter) -> &mut Self { self }
    pub fn filter_module(&mut self, _: &str, _: log::LevelFilter) -> &mut Self { self }
    pub fn parse_filters(&mut self, _: &str) -> &mut Self { self }
    pub fn parse_default_env(&mut self) -> &mut Self { self }
    pub fn is_test(&mut self, _: bool) -> &mut Self { self }
    pub fn init(&mut self) { install() }
    pub fn try_init(&mut self) -> Result<(), log::SetLoggerError> { install(); Ok(()) }
}
pub fn builder() -> Builder { Builder }
pub fn init() { install() }
pub fn try_init() -> Result<(), log::SetLoggerError> { install(); Ok(()) }
