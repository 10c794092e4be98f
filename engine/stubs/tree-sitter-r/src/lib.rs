//! Signature-only stand-in.
pub const LANGUAGE: tree_sitter::LanguageFn = tree_sitter::LanguageFn;
pub const NODE_TYPES: &str = "";
