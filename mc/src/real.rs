//! Thin wrappers around the real library, with panics caught and values converted.
use crate::engine::guard;
use crate::model::value::{E, V};
use toon::error::ToonError;
use toon::options::{DecodeOptions, DecodeStreamOptions, ExpandPathsMode};

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub panic: bool,
    pub line: Option<usize>,
    pub msg: String,
}
pub type R<T> = Result<T, Fault>;

pub fn fault(e: &ToonError) -> Fault {
    let msg = e.to_string();
    let line = match e {
        ToonError::Parse { line, .. } | ToonError::Validation { line, .. } => Some(*line),
        _ => line_in(&msg),
    };
    Fault { panic: false, line, msg }
}
/// "Line N: ..." or "Validation error at line N ...".
pub fn line_in(msg: &str) -> Option<usize> {
    let rest = msg
        .strip_prefix("Line ")
        .or_else(|| msg.find(" line ").map(|i| &msg[i + 6..]))?;
    let d: String = rest.chars().take_while(char::is_ascii_digit).collect();
    d.parse().ok()
}
pub fn call<T>(f: impl FnOnce() -> toon::error::Result<T>) -> R<T> {
    match guard(f) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(fault(&e)),
        Err(m) => Err(Fault { panic: true, line: None, msg: m }),
    }
}
pub fn split(text: &str) -> Vec<String> {
    text.split('\n').map(str::to_string).collect()
}
pub fn events(lines: &[String], indent: usize, strict: bool) -> R<Vec<E>> {
    let l = lines.to_vec();
    call(|| {
        toon::try_decode_stream_sync(
            l,
            Some(DecodeStreamOptions { indent: Some(indent), strict: Some(strict) }),
        )
    })
    .map(|v| v.iter().map(E::from_real).collect())
}
pub fn dopt(indent: usize, strict: bool, expand: bool) -> DecodeOptions {
    DecodeOptions {
        indent: Some(indent),
        strict: Some(strict),
        expand_paths: Some(if expand { ExpandPathsMode::Safe } else { ExpandPathsMode::Off }),
    }
}
pub fn decode(text: &str, indent: usize, strict: bool, expand: bool) -> R<V> {
    call(|| toon::try_decode(text, Some(dopt(indent, strict, expand)))).map(|v| V::from_real(&v))
}
pub fn encode(v: &V, o: crate::model::enc::EncOpt) -> Result<String, String> {
    let r = v.to_real();
    guard(|| toon::encode(r, Some(o.to_real())))
}
pub fn encode_lines(v: &V, o: crate::model::enc::EncOpt) -> Result<Vec<String>, String> {
    let r = v.to_real();
    guard(|| toon::encode_lines(r, Some(o.to_real())))
}
