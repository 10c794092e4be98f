import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "_cli.py")).read())
L = "crates/lsp/src/handlers_format.rs"
R = "crates/air_r_parser/src/parse.rs"
HE = """    if doc.parse.has_error() {
        // Refuse to format in the face of parse errors, but only log a warning
        // rather than returning an LSP error, as toast notifications here are distracting.
        tracing::warn!("Failed to format {uri}. Can't format when there are parse errors.");
        return Ok(None);
    }

    let range"""
CASES = [c for c in SAME if c[0] in ("compare simply", "into_result", "compare bytes", "write loop")] + [
    ("root is_error only", "bug", [(R, "if ast.root_node().has_error() {", "if ast.root_node().is_error() {")]),
    ("empty text", "bug", [(R, "if ast.root_node().has_error() {", "if ast.root_node().has_error() && !text.trim().is_empty() {")]),
    ("failure without record", "bug", [(R, "(events, trivia, Some(error))", "(events, trivia, None.or((text.len() > 1).then_some(error)))")]),
    ("has_error negated", "bug", [(R, "self.error.is_some()", "self.error.is_none()")]),
    ("range no check", "bug", [(L, HE, "    let range")]),
    ("range check only outside notebooks", "bug", [(L, HE, HE.replace("if doc.parse.has_error() {", 'if doc.parse.has_error() && uri.scheme() != "vscode-notebook-cell" {'))]),
    ("format_source skip", "bug", [(W, "    if parse.has_error() {\n        let error", "    if parse.has_error() && !source.is_empty() {\n        let error"), (W, "    if parse.has_error() {\n        panic!(\"Can't supply a `parse` with known errors.\");\n    }\n\n", "")]),
    ("reparse", "bug", [(W, "    format_source_with_parse(source, &parse, options)", "    let parse = air_r_parser::parse(source.trim_start_matches('\\u{feff}'), RParserOptions::default());\n    format_source_with_parse(source, &parse, options)"), (W, "    if parse.has_error() {\n        panic!(\"Can't supply a `parse` with known errors.\");\n    }\n\n", "")]),
    ("parser match", "same", [(R, "    if ast.root_node().has_error() {", "    let root = ast.root_node();\n    let broken = root.has_error();\n    if broken {")]),
    ("lsp helper", "same", [(L, HE, "    if broken(doc) {\n        return Ok(None);\n    }\n\n    let range"), (L, "// From biome_formatter\n", "fn broken(doc: &crate::documents::Document) -> bool {\n    doc.parse.error().is_some()\n}\n\n// From biome_formatter\n")]),
    ("record match", "same", [(R, "        self.error.is_some()\n", "        matches!(self.error, Some(_))\n")]),
]
