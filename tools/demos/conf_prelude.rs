//! deps: fs = { path = "/opt/vp/ws/crates/fs" }; line_ending = { path = "/opt/vp/ws/crates/line_ending" }; settings = { path = "/opt/vp/ws/crates/settings", features = ["serde"] }; anyhow = "1"; ignore = "0.4"; rustc-hash = "2"; serde = { version = "1", features = ["derive"] }; toml = "0.8"; tracing = "0.1"; tempfile = "3"; thiserror = "2"; serde_json = "1"
//! links: /repo/crates/workspace/src
#![allow(dead_code, unused_imports)]
extern crate self as air_r_formatter;
/// Stands in for the formatter's options: records what is set.
pub mod context {
    use settings::*;
    #[derive(Debug, Default, Clone)]
    pub struct RFormatOptions {
        pub indent_style: IndentStyle,
        pub indent_width: IndentWidth,
        pub line_ending: LineEnding,
        pub line_width: LineWidth,
        pub persistent_line_breaks: PersistentLineBreaks,
        pub assignment_style: AssignmentStyle,
        pub skip: Option<Skip>,
        pub table: Option<Table>,
    }
    macro_rules! with {
        ($($f:ident $n:ident: $t:ty,)*) => { $(pub fn $f(mut self, x: $t) -> Self { self.$n = x; self })* };
    }
    impl RFormatOptions {
        pub fn new() -> Self {
            Self::default()
        }
        with! {
            with_indent_style indent_style: IndentStyle,
            with_indent_width indent_width: IndentWidth,
            with_line_ending line_ending: LineEnding,
            with_line_width line_width: LineWidth,
            with_persistent_line_breaks persistent_line_breaks: PersistentLineBreaks,
            with_assignment_style assignment_style: AssignmentStyle,
            with_skip skip: Option<Skip>,
            with_table table: Option<Table>,
        }
    }
}
mod discovery;
mod file_patterns;
mod resolve;
mod settings;
mod toml;
mod toml_options;

use std::path::{Path, PathBuf};

/// The settings a file in `/r` gets with this `air.toml`, or `None` if it is rejected.
fn read(text: &str) -> Option<crate::settings::Settings> {
    let options = crate::toml::parse_air_inline_toml(text).ok()?;
    options.into_settings(Path::new("/r")).ok()
}

