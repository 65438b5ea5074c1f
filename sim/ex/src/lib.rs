//! The repository's drawing example, run as it is on a simulated file system.
pub mod vfs;

#[allow(dead_code, unused)]
mod example {
    include!(concat!(env!("OUT_DIR"), "/example.rs"));

    /// What the runtime does with `main`: true if the exit status says success.
    pub fn run() -> bool {
        let c = std::process::Termination::report(main());
        format!("{c:?}") == format!("{:?}", std::process::ExitCode::SUCCESS)
    }
}
pub use example::run;
