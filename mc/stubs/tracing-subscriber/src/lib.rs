//! Empty stand-in: toon_rust declares this dependency but uses nothing of it.
