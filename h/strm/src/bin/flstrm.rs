//! Small driver for builds in other modes (release, sanitizers, Miri).
fn main() {
    flcore::runner::install_hook();
    match std::env::args().nth(1).as_deref() {
        Some("tags") => flstrm::wirec::release_main(),
        _ => std::process::exit(2),
    }
}
