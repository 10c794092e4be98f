H = "crates/lsp/src/handlers_format.rs"
TP = "crates/aether_lsp_utils/src/proto/to_proto.rs"
DF = "crates/aether_lsp_utils/src/diff.rs"
TE = "crates/aether_lsp_utils/src/text_edit.rs"
REP = """        if let (Chunk::Delete(deleted), Some(&Chunk::Insert(inserted))) = (chunk, chunks.peek()) {
            chunks.next().unwrap();
            let deleted_len = TextSize::of(deleted);
            builder.replace(TextRange::at(pos, deleted_len), inserted.into());
            pos += deleted_len;
            continue;
        }

"""
CASES = [
    ("crlf twice", "bug", [(H, "        LineEnding::Crlf => format_options.with_line_ending(LineEnding::Lf),\n", "        LineEnding::Crlf => format_options,\n")]),
    ("forced crlf", "bug", [(H, "LineEnding::Crlf => format_options.with_line_ending(LineEnding::Lf)", "LineEnding::Crlf => format_options.with_line_ending(LineEnding::Crlf)")]),
    ("options swapped", "bug", [(H, "        LineEnding::Lf => format_options,\n        LineEnding::Crlf => format_options.with", "        LineEnding::Crlf => format_options,\n        LineEnding::Lf => format_options.with")]),
    ("one pop", "bug", [(H, "        if text.ends_with('\\r') {\n            text.pop();\n        }\n", "")]),
    ("pop for all", "bug", [(H, '            if uri.scheme() == "vscode-notebook-cell" {\n                pop_line_ending(&mut formatted);\n            }\n', "            pop_line_ending(&mut formatted);\n")]),
    ("pop for untitled", "bug", [(H, 'if uri.scheme() == "vscode-notebook-cell" {', 'if uri.scheme() == "vscode-notebook-cell" || uri.scheme() == "untitled" {')]),
    ("no pop in range", "bug", [(H, "    pop_line_ending(&mut format_text);\n", "    let _ = &mut format_text;\n")]),
    ("pop any cr", "bug", [(H, "    if text.ends_with('\\n') {\n        text.pop();\n        if text.ends_with('\\r') {\n            text.pop();\n        }\n    }\n", "    if text.ends_with('\\n') {\n        text.pop();\n        text.pop();\n    }\n")]),
    ("endings of formatted", "bug", [(H, "                doc.endings,\n            )?))", "                LineEnding::Lf,\n            )?))")]),
    ("span of first", "bug", [(H, ".reduce(|acc, new| acc.cover(new))", ".reduce(|acc, _| acc)")]),
    ("span of request", "bug", [(H, "        format_range,\n        format_text,", "        range,\n        format_text,")]),
    ("crlf ignored", "bug", [(TP, "LineEnding::Crlf => indel.insert.replace('\\n', \"\\r\\n\"),", "LineEnding::Crlf => indel.insert,")]),
    ("crlf first only", "bug", [(TP, "indel.insert.replace('\\n', \"\\r\\n\")", "indel.insert.replacen('\\n', \"\\r\\n\", 1)")]),
    ("crlf inverted", "bug", [(TP, "LineEnding::Lf => indel.insert,\n        LineEnding::Crlf =>", "LineEnding::Crlf => indel.insert,\n        LineEnding::Lf =>")]),
    ("first edit", "bug", [(TP, "        .into_iter()\n        .map(|indel| self::text_edit", "        .into_iter()\n        .take(1)\n        .map(|indel| self::text_edit")]),
    ("skip empty", "bug", [(TP, "        .into_iter()\n        .map(|indel| self::text_edit", "        .into_iter()\n        .filter(|indel| !indel.insert.is_empty())\n        .map(|indel| self::text_edit")]),
    ("diff swapped", "bug", [(TP, "crate::diff::diff(text, replace_with)", "crate::diff::diff(replace_with, text)")]),
    ("insert advances", "bug", [(DF, "                builder.insert(pos, inserted.into());\n", "                builder.insert(pos, inserted.into());\n                pos += TextSize::of(inserted);\n")]),
    ("delete stays", "bug", [(DF, "                builder.delete(TextRange::at(pos, deleted_len));\n                pos += deleted_len;\n", "                builder.delete(TextRange::at(pos, deleted_len));\n")]),
    ("replace by inserted length", "bug", [(DF, "            pos += deleted_len;\n            continue;", "            pos += TextSize::of(inserted);\n            continue;")]),
    ("replace range inserted", "bug", [(DF, "builder.replace(TextRange::at(pos, deleted_len), inserted.into());", "builder.replace(TextRange::at(pos, TextSize::of(inserted)), inserted.into());")]),
    ("second dropped", "bug", [(DF, "            builder.replace(TextRange::at(pos, deleted_len), inserted.into());\n", "            let _ = inserted;\n            builder.delete(TextRange::at(pos, deleted_len));\n")]),
    ("equal short", "bug", [(DF, "                pos += TextSize::of(text);\n", "                pos += TextSize::of(text.trim_end());\n")]),
    ("replace not taken", "bug", [(DF, "            chunks.next().unwrap();\n", "")]),
    ("equal taken as insert", "bug", [(DF, "Some(&Chunk::Insert(inserted))) = (chunk, chunks.peek())", "Some(&Chunk::Insert(inserted) | &Chunk::Equal(inserted))) = (chunk, chunks.peek())")]),
    ("join reversed", "bug", [(TE, "                a.insert.push_str(&b.insert);\n", "                a.insert.insert_str(0, &b.insert);\n")]),
    ("join drops", "bug", [(TE, "                a.insert.push_str(&b.insert);\n", "")]),
    ("join range", "bug", [(TE, "a.delete = TextRange::new(a.delete.start(), b.delete.end());", "a.delete = TextRange::new(a.delete.start(), a.delete.end());")]),
    ("replace empty range", "bug", [(TE, "    pub fn replace(range: TextRange, replace_with: String) -> Indel {\n        Indel {\n            delete: range,", "    pub fn replace(range: TextRange, replace_with: String) -> Indel {\n        Indel {\n            delete: TextRange::empty(range.start()),")]),
    ("only when few", "bug", [(TE, "        self.indels.push(indel);\n        if self.indels.len() <= 16 {\n", "        if self.indels.len() <= 16 {\n            self.indels.push(indel);\n")]),
    ("no merge", "same", [(DF, REP, ""), (DF, "into_iter().peekable();", "into_iter();")]),
    ("for loop", "same", [(DF, REP, ""), (DF, "    let mut chunks = chunks.into_iter().peekable();\n    while let Some(chunk) = chunks.next() {\n", "    for chunk in chunks {\n")]),
    ("range new", "same", [(DF, "builder.delete(TextRange::at(pos, deleted_len));", "builder.delete(TextRange::new(pos, pos + deleted_len));")]),
    ("edit helper", "same", [(TP, "    let new_text = match endings {\n        LineEnding::Lf => indel.insert,\n        LineEnding::Crlf => indel.insert.replace('\\n', \"\\r\\n\"),\n    };\n", "    let new_text = with_endings(indel.insert, endings);\n"), (TP, "pub fn text_edit_vec(", "fn with_endings(text: String, endings: LineEnding) -> String {\n    if matches!(endings, LineEnding::Crlf) {\n        return text.replace(\"\\n\", \"\\r\\n\");\n    }\n    text\n}\n\npub fn text_edit_vec(")]),
    ("edit loop", "same", [(TP, "    text_edit\n        .into_iter()\n        .map(|indel| self::text_edit(indel, line_index, position_encoding, endings))\n        .collect()\n", "    let mut edits = Vec::with_capacity(text_edit.len());\n    for indel in text_edit {\n        edits.push(self::text_edit(indel, line_index, position_encoding, endings)?);\n    }\n    Ok(edits)\n")]),
    ("endings if", "same", [(H, "    match doc.endings {\n        LineEnding::Lf => format_options,\n        LineEnding::Crlf => format_options.with_line_ending(LineEnding::Lf),\n    }\n", "    if doc.endings == LineEnding::Crlf {\n        return format_options.with_line_ending(LineEnding::Lf);\n    }\n    format_options\n")]),
    ("always lf", "same", [(H, "    match doc.endings {\n        LineEnding::Lf => format_options,\n        LineEnding::Crlf => format_options.with_line_ending(LineEnding::Lf),\n    }\n", "    format_options.with_line_ending(LineEnding::Lf)\n")]),
    ("cover function", "same", [(H, ".reduce(|acc, new| acc.cover(new))", ".reduce(TextRange::cover)")]),
    ("joined helper", "same", [(TE, "                a.insert.push_str(&b.insert);\n                a.delete = TextRange::new(a.delete.start(), b.delete.end());\n                Ok(a)\n", "                let delete = TextRange::new(a.delete.start(), b.delete.end());\n                a.insert += &b.insert;\n                Ok(Indel { delete, insert: a.insert })\n")]),
]
