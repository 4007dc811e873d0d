//! Reference models.  Written against the documented format, in plain, slow style, sharing no
//! code with toon_rust.
pub mod dec;
pub mod enc;
pub mod events;
pub mod expand;
pub mod json;
pub mod repl;
pub mod value;
