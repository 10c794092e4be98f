D = "crates/lsp/src/documents.rs"
H = "crates/lsp/src/handlers_state.rs"
F = "crates/aether_lsp_utils/src/proto/from_proto.rs"
S = "crates/lsp/src/handlers_format.rs"
FULL = """    let (changes, mut last_start_line) =
        match changes.iter().rposition(|change| change.range.is_none()) {
            Some(idx) => {
                let incremental = changes.split_off(idx + 1);
                // Unwrap: `rposition()` confirmed this index contains a full document change
                let change = changes.pop().unwrap();
                *contents = line_ending::normalize(change.text);
                (incremental, 0)
            }
            None => (changes, u32::MAX),
        };
"""
REBUILD = """        if range.end.line >= last_start_line {
            *line_index = biome_line_index::LineIndex::new(contents);
        }
        last_start_line = range.start.line;
"""
SYNC = """        self.line_index = biome_line_index::LineIndex::new(&self.contents);
        self.parse = air_r_parser::parse(&self.contents, Default::default());
        self.version = Some(new_version);
"""
LOOP = "    for change in changes {\n        let range = change\n            .range"
CASES = [
    ("index not rebuilt", "bug", [(D, "        self.line_index = biome_line_index::LineIndex::new(&self.contents);\n        self.parse", "        self.parse")]),
    ("parse not rebuilt", "bug", [(D, "        self.parse = air_r_parser::parse(&self.contents, Default::default());\n", "")]),
    ("version not stored", "bug", [(D, "        self.version = Some(new_version);\n", "        let _ = new_version;\n")]),
    ("version stored once", "bug", [(D, "        self.version = Some(new_version);\n", "        self.version.get_or_insert(new_version);\n")]),
    ("older accepted", "bug", [(D, "            if new_version < old_version {", "            if new_version < old_version - 1 {")]),
    ("newer rejected", "bug", [(D, "            if new_version < old_version {", "            if new_version > old_version {")]),
    ("parse before edits", "bug", [(D, "        from_proto::apply_text_changes(\n            &mut self.contents,", "        self.parse = air_r_parser::parse(&self.contents, Default::default());\n        from_proto::apply_text_changes(\n            &mut self.contents,"), (D, "        self.parse = air_r_parser::parse(&self.contents, Default::default());\n        self.version", "        self.version")]),
    ("new: index of raw", "bug", [(D, "        // Normalize to Unix line endings\n", "        let line_index = biome_line_index::LineIndex::new(&contents);\n"), (D, "        // Create line index to keep track of newline offsets\n        let line_index = biome_line_index::LineIndex::new(&contents);\n", "")]),
    ("new: version dropped", "bug", [(D, "            parse,\n            version,\n", "            parse,\n            version: version.filter(|v| *v > 1),\n")]),
    ("gt", "bug", [(F, "if range.end.line >= last_start_line {", "if range.end.line > last_start_line {")]),
    ("start compared", "bug", [(F, "if range.end.line >= last_start_line {", "if range.start.line >= last_start_line {")]),
    ("last end", "bug", [(F, "last_start_line = range.start.line;", "last_start_line = range.end.line;")]),
    ("last min", "bug", [(F, "                (incremental, 0)", "                (incremental, u32::MAX)")]),
    ("no index", "bug", [(F, "*line_index = biome_line_index::LineIndex::new(contents);\n        }", "}")]),
    ("first full", "bug", [(F, ".rposition(|change| change.range.is_none())", ".position(|change| change.range.is_none())")]),
    ("split at", "bug", [(F, "let incremental = changes.split_off(idx + 1);", "let incremental = changes.split_off((idx + 2).min(changes.len()));")]),
    ("reversed", "bug", [(F, "    for change in changes {\n        let range = change\n            .range", "    for change in changes.into_iter().rev() {\n        let range = change\n            .range")]),
    ("only ten", "bug", [(F, "    for change in changes {\n        let range = change\n            .range", "    for change in changes.into_iter().take(10) {\n        let range = change\n            .range")]),
    ("other writer", "bug", [(D, "    /// Convenient accessor that returns", "    pub(crate) fn trim(&mut self) {\n        self.contents.truncate(10);\n    }\n\n    /// Convenient accessor that returns")]),
    ("writer keeps parse", "bug", [(D, "    /// Convenient accessor that returns", "    pub(crate) fn replace(&mut self, text: String) {\n        self.line_index = biome_line_index::LineIndex::new(&text);\n        self.contents = text;\n    }\n\n    /// Convenient accessor that returns")]),
    ("open no version", "bug", [(H, "Document::new(contents, Some(version), lsp_state.position_encoding)", "Document::new(contents, None, lsp_state.position_encoding)")]),
    ("open keeps first", "bug", [(H, "    state.documents.insert(uri.clone(), document);\n", "    state.documents.entry(uri.clone()).or_insert(document);\n")]),
    ("change first only", "bug", [(H, "doc.on_did_change(params.content_changes, params.text_document.version);", "doc.on_did_change(params.content_changes.into_iter().take(1).collect(), params.text_document.version);")]),
    ("change skips empty", "bug", [(H, "    doc.on_did_change(params.content_changes, params.text_document.version);", "    if !params.content_changes.iter().all(|c| c.text.is_empty()) {\n        doc.on_did_change(params.content_changes, params.text_document.version);\n    }")]),
    ("close keeps", "bug", [(H, "    state\n        .documents\n        .remove(&uri)\n        .ok_or(", "    state\n        .documents\n        .get(&uri)\n        .ok_or(")]),
    ("close all", "bug", [(H, "        .ok_or(anyhow!(\"Failed to remove document for URI: {uri}\"))?;\n", "        .ok_or(anyhow!(\"Failed to remove document for URI: {uri}\"))?;\n    state.documents.clear();\n")]),
    ("sync helper", "same", [(D, SYNC, "        self.resync();\n        self.version = Some(new_version);\n"), (D, "    /// Convenient accessor that returns", "    fn resync(&mut self) {\n        self.line_index = biome_line_index::LineIndex::new(&self.contents);\n        self.parse = air_r_parser::parse(&self.contents, Default::default());\n    }\n\n    /// Convenient accessor that returns")]),
    ("sync order", "same", [(D, SYNC, "        self.version = Some(new_version);\n        self.parse = air_r_parser::parse(&self.contents, Default::default());\n        self.line_index = biome_line_index::LineIndex::new(&self.contents);\n")]),
    ("order assert", "same", [(D, "            if new_version < old_version {", "            if old_version > new_version {")]),
    ("order is_some", "same", [(D, "        if let Some(old_version) = self.version {\n", "        let old = self.version;\n        if let Some(old_version) = old {\n")]),
    ("always rebuild", "same", [(F, REBUILD, "        last_start_line = range.start.line;\n        let _ = last_start_line;\n        *line_index = biome_line_index::LineIndex::new(contents);\n")]),
    ("not lt", "same", [(F, "if range.end.line >= last_start_line {", "if !(range.end.line < last_start_line) {")]),
    ("stale flag", "same", [(F, "        if range.end.line >= last_start_line {\n            *line", "        let stale = last_start_line <= range.end.line;\n        if stale {\n            *line")]),
    ("full if let", "same", [(F, FULL, """    let mut last_start_line = u32::MAX;
    let full = changes.iter().rposition(|change| change.range.is_none());
    if let Some(idx) = full {
        let incremental = changes.split_off(idx + 1);
        let change = changes.pop().unwrap();
        *contents = line_ending::normalize(change.text);
        last_start_line = 0;
        changes = incremental;
    }
""")]),
    ("each", "same", [(F, "        contents.replace_range(range, &line_ending::normalize(change.text));\n    }\n}\n\n/// Simple", "        let text = line_ending::normalize(change.text);\n        contents.replace_range(range, &text);\n    }\n}\n\n/// Simple")]),
    ("rebuild full eagerly", "same", [(F, "                *contents = line_ending::normalize(change.text);\n                (incremental, 0)", "                *contents = line_ending::normalize(change.text);\n                *line_index = biome_line_index::LineIndex::new(contents);\n                (incremental, u32::MAX)")]),
    ("handler destructure", "same", [(H, "    let uri = &params.text_document.uri;\n    let doc = state.get_document_mut_or_error(uri)?;\n    doc.on_did_change(params.content_changes, params.text_document.version);\n", "    let DidChangeTextDocumentParams { text_document, content_changes } = params;\n    state\n        .get_document_mut_or_error(&text_document.uri)?\n        .on_did_change(content_changes, text_document.version);\n")]),
    ("close if let", "same", [(H, "    state\n        .documents\n        .remove(&uri)\n        .ok_or(anyhow!(\"Failed to remove document for URI: {uri}\"))?;\n", "    if state.documents.remove(&uri).is_none() {\n        return Err(anyhow!(\"Failed to remove document for URI: {uri}\"));\n    }\n")]),
]
