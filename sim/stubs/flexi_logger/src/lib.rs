//! Offline stand-in for `flexi_logger`: accepts the configuration and leaves the records to the logger the simulator
//! installed (which keeps them per simulated process, in memory).
pub use log::{LevelFilter, Record};
use std::io::{self, Write};
use std::path::PathBuf;

pub type FormatFunction = fn(&mut dyn Write, &mut DeferredNow, &Record<'_>) -> io::Result<()>;

#[derive(Debug)]
pub struct FlexiLoggerError;
impl std::fmt::Display for FlexiLoggerError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("logger error")
    }
}
impl std::error::Error for FlexiLoggerError {}

#[derive(Debug, Default)]
pub struct DeferredNow;
#[derive(Debug)]
pub struct SimNow;
impl DeferredNow {
    pub fn now(&mut self) -> &SimNow {
        &SimNow
    }
}
impl SimNow {
    pub fn to_rfc2822(&self) -> String {
        String::from("simulated time")
    }
}

#[derive(Debug, Default, Clone)]
pub struct FileSpec;
impl FileSpec {
    pub fn directory(self, _: impl Into<PathBuf>) -> Self {
        self
    }
    pub fn basename(self, _: impl Into<String>) -> Self {
        self
    }
}

#[derive(Debug, Clone, Copy)]
pub enum Age {
    Day,
    Hour,
    Minute,
    Second,
}
#[derive(Debug, Clone, Copy)]
pub enum Criterion {
    Size(u64),
    Age(Age),
    AgeOrSize(Age, u64),
}
#[derive(Debug, Clone, Copy)]
pub enum Naming {
    Timestamps,
    Numbers,
}
#[derive(Debug, Clone, Copy)]
pub enum Cleanup {
    Never,
    KeepLogFiles(usize),
}
#[derive(Debug, Clone, Copy)]
pub enum Duplicate {
    None,
    Error,
    Warn,
    Info,
    All,
}

#[derive(Debug, Default)]
pub struct LogSpecification;
#[derive(Debug, Default)]
pub struct LogSpecBuilder;
impl LogSpecBuilder {
    pub fn new() -> Self {
        Self
    }
    pub fn default(&mut self, _: LevelFilter) -> &mut Self {
        self
    }
    pub fn build(&self) -> LogSpecification {
        LogSpecification
    }
}

#[derive(Debug, Default)]
pub struct Logger;
#[derive(Debug)]
pub struct LoggerHandle;
impl Logger {
    pub fn with(_: impl Into<LogSpecification>) -> Self {
        Logger
    }
    pub fn log_to_file(self, _: FileSpec) -> Self {
        self
    }
    pub fn log_to_stdout(self) -> Self {
        self
    }
    pub fn duplicate_to_stdout(self, _: Duplicate) -> Self {
        self
    }
    pub fn rotate(self, _: Criterion, _: Naming, _: Cleanup) -> Self {
        self
    }
    pub fn format(self, f: FormatFunction) -> Self {
        // exercised once, so that the caller's formatter is at least run
        let rec = Record::builder().args(format_args!("")).level(log::Level::Info).build();
        f(&mut io::sink(), &mut DeferredNow, &rec).ok();
        self
    }
    pub fn start(self) -> Result<LoggerHandle, FlexiLoggerError> {
        Ok(LoggerHandle)
    }
}
