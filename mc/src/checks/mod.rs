pub mod cli;
pub mod docs;
pub mod entry;
pub mod events;
pub mod fold;
pub mod history;
pub mod install;
pub mod js;
pub mod work;
pub mod jsontext;
pub mod nopanic;
pub mod stream;
pub mod strings;
pub mod values;
