pub mod error { #[derive(Debug)] pub struct Error;
impl std::error::Error for Error {} impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("codec") } } }
