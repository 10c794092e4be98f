F = "crates/line_ending/src/lib.rs"
R = "crates/air_r_formatter/src/r/auxiliary/root.rs"
S = "crates/air_r_formatter/src/string_content.rs"
D = "crates/lsp/src/documents.rs"
P = "crates/aether_lsp_utils/src/proto/from_proto.rs"
T = "crates/air_r_formatter/src/call_arguments_table.rs"
B = "crates/air_r_formatter/src/r/auxiliary/binary_expression.rs"
CASES = [
    ("string raw", "bug", [(S, "line_ending::normalize_ref(token.text())", "std::borrow::Cow::Borrowed(token.text())")]),
    ("string short", "bug", [(S, "line_ending::normalize_ref(token.text())", "if token.text().len() < 4096 { std::borrow::Cow::Borrowed(token.text()) } else { line_ending::normalize_ref(token.text()) }")]),
    ("root raw", "bug", [(R, "LineEnding::Crlf => line_ending::normalize(text)", "LineEnding::Crlf => text")]),
    ("root first", "bug", [(R, "match line_ending::infer(&text) {", "match line_ending::infer_first(&text) {")]),
    ("doc raw", "bug", [(D, "LineEnding::Crlf => line_ending::normalize(contents)", "LineEnding::Crlf => contents")]),
    ("full change raw", "bug", [(P, "*contents = line_ending::normalize(change.text);", "*contents = change.text;")]),
    ("range change raw", "bug", [(P, "&line_ending::normalize(change.text));", "&change.text);")]),
    ("range change trimmed", "same", [(P, "contents.replace_range(range, &line_ending::normalize(change.text));", "let text = line_ending::normalize(change.text);\n        contents.replace_range(range, &text);")]),
    ("range change ref", "same", [(P, "&line_ending::normalize(change.text));", "&line_ending::normalize_ref(&change.text));")]),
    ("table unchecked", "same", [(T, "        if text.contains('\\n') {\n            return Ok(None);\n        }\n", "        if text.contains('\\n') {\n            return Ok(None);\n        }\n        let text = text.clone();\n")]),
    ("table raw", "bug", [(T, "        Ok(Some(ArgKind::Other { text }))", "        let _ = text;\n        let text = arg.syntax().text_trimmed().to_string();\n        Ok(Some(ArgKind::Other { text }))")]),
    ("root helper", "same", [(R, "let text = match line_ending::infer(&text) {\n            LineEnding::Lf => text,\n            LineEnding::Crlf => line_ending::normalize(text),\n        };", "let text = clean(text);"), (R, "use ", "fn clean(text: String) -> String {\n    line_ending::normalize(text)\n}\n\nuse ")]),
    ("root always", "same", [(R, "match line_ending::infer(&text) {\n            LineEnding::Lf => text,\n            LineEnding::Crlf => line_ending::normalize(text),\n        };", "line_ending::normalize(text);")]),
    ("doc if", "same", [(D, "let contents = match endings {\n            LineEnding::Lf => contents,\n            LineEnding::Crlf => line_ending::normalize(contents),\n        };", "let contents = if endings == LineEnding::Crlf {\n            line_ending::normalize(contents)\n        } else {\n            contents\n        };")]),
    ("doc index raw", "bug", [(D, "let contents = match endings", "let line_index = biome_line_index::LineIndex::new(&contents);\n        let contents = match endings"), (D, "        let line_index = biome_line_index::LineIndex::new(&contents);\n\n        // Parse", "        // Parse")]),
    ("infer limited", "bug", [(F, "match FINDER.find(x.as_bytes()) {", "match FINDER.find(&x.as_bytes()[..x.len().min(8192)]) {")]),
]
