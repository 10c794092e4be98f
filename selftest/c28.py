L = "crates/lsp/src/handlers_format.rs"
H = "crates/lsp/src/handlers_state.rs"
D = "crates/lsp/src/documents.rs"
C = "crates/lsp/src/capabilities.rs"
F = "crates/aether_lsp_utils/src/proto/from_proto.rs"
T = "crates/aether_lsp_utils/src/proto/to_proto.rs"
NEG = """    let position_encoding = if lsp_state
        .capabilities
        .position_encodings
        .contains(&lsp_types::PositionEncodingKind::UTF8)
    {
        lsp_state.position_encoding = PositionEncoding::Utf8;
        Some(lsp_types::PositionEncodingKind::UTF8)
    } else {
        lsp_state.position_encoding = PositionEncoding::Wide(WideEncoding::Utf16);
        Some(lsp_types::PositionEncodingKind::UTF16)
    };
"""
RNG = """    let start = offset_from_position(range.start, line_index, position_encoding)?;
    let end = offset_from_position(range.end, line_index, position_encoding)?;
    Ok(biome_text_size::TextRange::new(start, end))"""
CASES = [
    ("announce not stored", "bug", [(H, "        lsp_state.position_encoding = PositionEncoding::Utf8;\n", "")]),
    ("utf8 only when first", "bug", [(H, "        .contains(&lsp_types::PositionEncodingKind::UTF8)", "        .first() == Some(&lsp_types::PositionEncodingKind::UTF8)")]),
    ("utf32", "bug", [(H, "        lsp_state.position_encoding = PositionEncoding::Wide(WideEncoding::Utf16);", "        lsp_state.position_encoding = PositionEncoding::Wide(WideEncoding::Utf32);")]),
    ("announce swapped", "bug", [(H, "        Some(lsp_types::PositionEncodingKind::UTF16)\n", "        Some(lsp_types::PositionEncodingKind::UTF8)\n")]),
    ("range utf16", "bug", [(L, "from_proto::text_range(params.range, &doc.line_index, doc.position_encoding)", "from_proto::text_range(params.range, &doc.line_index, aether_lsp_utils::proto::PositionEncoding::Utf8)")]),
    ("fresh index", "bug", [(L, "        &doc.line_index,\n        doc.position_encoding,\n        doc.endings,\n    )?;", "        &biome_line_index::LineIndex::new(&format_text),\n        doc.position_encoding,\n        doc.endings,\n    )?;"), (L, "        format_text,\n", "        format_text.clone(),\n")]),
    ("open utf16", "bug", [(H, "Document::new(contents, Some(version), lsp_state.position_encoding)", "Document::new(contents, Some(version), PositionEncoding::Wide(WideEncoding::Utf16))")]),
    ("from: character as utf8", "bug", [(F, "            line_index.to_utf8(enc, line_col)", "            let _ = (enc, &line_col);\n            LineCol { line: line_col.line, col: line_col.col }")]),
    ("from: end is start", "bug", [(F, "offset_from_position(range.end, line_index", "offset_from_position(lsp_types::Position::new(range.end.line, range.start.character), line_index")]),
    ("to: swapped", "bug", [(T, "            Ok(lsp_types::Position::new(line_col.line, line_col.col))\n        }\n    }", "            Ok(lsp_types::Position::new(line_col.col, line_col.line))\n        }\n    }")]),
    ("to: no conversion", "bug", [(T, "            let line_col = line_index\n                .to_wide(enc, line_col)\n                .with_context(|| format!(\"Could not convert {line_col:?} into wide line column\"))?;\n", "            line_index\n                .to_wide(enc, line_col)\n                .with_context(|| format!(\"Could not convert {line_col:?} into wide line column\"))?;\n")]),
    ("edit covers start", "bug", [(T, "    let range = range(indel.delete, line_index", "    let range = range(TextRange::empty(indel.delete.start()), line_index")]),
    ("capabilities first", "bug", [(C, "general_client_capabilities.position_encodings)", "general_client_capabilities.position_encodings.map(|x| x.into_iter().take(1).collect()))")]),
    ("negotiate flag", "same", [(H, NEG, """    let utf8 = lsp_state.capabilities.position_encodings.contains(&lsp_types::PositionEncodingKind::UTF8);
    let (encoding, kind) = if utf8 {
        (PositionEncoding::Utf8, lsp_types::PositionEncodingKind::UTF8)
    } else {
        (PositionEncoding::Wide(WideEncoding::Utf16), lsp_types::PositionEncodingKind::UTF16)
    };
    lsp_state.position_encoding = encoding;
    let position_encoding = Some(kind);
""")]),
    ("negotiate any", "same", [(H, "        .contains(&lsp_types::PositionEncodingKind::UTF8)", "        .iter()\n        .any(|kind| *kind == lsp_types::PositionEncodingKind::UTF8)")]),
    ("negotiate fn", "same", [(H, NEG, "    let position_encoding = Some(negotiate(lsp_state));\n"), (H, "#[tracing::instrument(level = \"info\", skip_all)]\npub(crate) async fn did_open(", """fn negotiate(lsp_state: &mut LspState) -> lsp_types::PositionEncodingKind {
    let offered = &lsp_state.capabilities.position_encodings;
    if offered.contains(&lsp_types::PositionEncodingKind::UTF8) {
        lsp_state.position_encoding = PositionEncoding::Utf8;
        return lsp_types::PositionEncodingKind::UTF8;
    }
    lsp_state.position_encoding = PositionEncoding::Wide(WideEncoding::Utf16);
    lsp_types::PositionEncodingKind::UTF16
}

#[tracing::instrument(level = "info", skip_all)]
pub(crate) async fn did_open(""")]),
    ("range inline", "same", [(F, RNG, """    let offset = |position| offset_from_position(position, line_index, position_encoding);
    Ok(biome_text_size::TextRange::new(offset(range.start)?, offset(range.end)?))""")]),
    ("from inline", "same", [(F, "            let line_col = WideLineCol {\n                line: position.line,\n                col: position.character,\n            };\n            line_index.to_utf8(enc, line_col)", "            let lsp_types::Position { line, character } = position;\n            line_index.to_utf8(enc, WideLineCol { line, col: character })")]),
    ("to if let", "same", [(T, """    match position_encoding {
        PositionEncoding::Utf8 => Ok(lsp_types::Position::new(line_col.line, line_col.col)),
        PositionEncoding::Wide(enc) => {
            let line_col = line_index
                .to_wide(enc, line_col)
                .with_context(|| format!("Could not convert {line_col:?} into wide line column"))?;
            Ok(lsp_types::Position::new(line_col.line, line_col.col))
        }
    }""", """    if let PositionEncoding::Wide(enc) = position_encoding {
        return match line_index.to_wide(enc, line_col) {
            Some(wide) => Ok(lsp_types::Position::new(wide.line, wide.col)),
            None => Err(anyhow::anyhow!("Could not convert {line_col:?} into wide line column")),
        };
    }
    Ok(lsp_types::Position { line: line_col.line, character: line_col.col })""")]),
    ("edit vec loop", "same", [(T, """    text_edit
        .into_iter()
        .map(|indel| self::text_edit(indel, line_index, position_encoding, endings))
        .collect()""", """    let mut out = Vec::new();
    for indel in text_edit {
        out.push(self::text_edit(indel, line_index, position_encoding, endings)?);
    }
    Ok(out)""")]),
    ("handler bind", "same", [(L, "    let range = from_proto::text_range(params.range, &doc.line_index, doc.position_encoding)?;", "    let crate::documents::Document { line_index, position_encoding, .. } = doc;\n    let range = from_proto::text_range(params.range, line_index, *position_encoding)?;")]),
    ("capabilities match", "same", [(C, ".and_then(|general_client_capabilities| general_client_capabilities.position_encodings)", ".and_then(|general| match general.position_encodings { Some(x) => Some(x), None => None })")]),
]
