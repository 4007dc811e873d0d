//! Offline stand-in for the `vergen-gix` build dependency: only build-time version metadata.
use std::error::Error;
pub trait Add {}
macro_rules! cfgs { ($($n:ident: $($m:ident),*);*) => {$(
    #[derive(Default, Clone, Copy)] pub struct $n;
    impl $n { pub fn builder() -> Self { $n } $(pub fn $m(self, _: bool) -> Self { self })* pub fn build(self) -> Self { self } }
    impl Add for $n {}
)*}}
cfgs! { Build: build_timestamp, build_date; Cargo: target_triple, debug, features, opt_level; Rustc: semver, channel, commit_hash, host_triple; Gix: sha, dirty, branch }
#[derive(Default)]
pub struct Emitter;
impl Emitter {
    pub fn add_instructions(&mut self, _: &dyn Add) -> Result<&mut Self, Box<dyn Error>> { Ok(self) }
    pub fn emit(&self) -> Result<(), Box<dyn Error>> {
        for (k, v) in [("VERGEN_BUILD_TIMESTAMP", "1970-01-01T00:00:00Z"), ("VERGEN_CARGO_TARGET_TRIPLE", "stub"), ("VERGEN_RUSTC_SEMVER", "0.0.0")] {
            println!("cargo:rustc-env={k}={v}");
        }
        Ok(())
    }
}
