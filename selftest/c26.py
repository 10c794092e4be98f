W = "crates/lsp/src/workspaces.rs"
S = "crates/lsp/src/settings.rs"
H = "crates/lsp/src/handlers_state.rs"
M = "crates/lsp/src/main_loop.rs"
V = "crates/lsp/src/settings_vsc.rs"
D = "crates/lsp/src/documents.rs"
TOML = """                // If there is an actual TOML, that wins
                settings.format.to_format_options(source)
"""
CASES = [
    ("toml merged", "bug", [(W, TOML, """                DocumentSettings::merge(
                    settings.format.to_format_options(source),
                    document_settings,
                )
""")]),
    ("toml width from editor", "bug", [(W, TOML, """                let mut options = settings.format.to_format_options(source);
                if let Some(width) = document_settings.indent_width {
                    options.set_indent_width(width);
                }
                options
""")]),
    ("fallback unmerged", "bug", [(W, "DocumentSettings::merge(format_options, document_settings)", "{\n                    let _ = document_settings;\n                    format_options\n                }")]),
    ("text not the document's", "bug", [(W, """                let format_options = settings.format.to_format_options(source);
""", """                let format_options = settings.format.to_format_options("");
""")]),
    ("width into line width", "bug", [(S, "        if let Some(line_width) = document_settings.line_width {\n            format_options.set_line_width(line_width);\n        }\n", "")]),
    ("style only with width", "bug", [(S, """        if let Some(indent_style) = document_settings.indent_style {
            format_options.set_indent_style(indent_style);
        }
        if let Some(indent_width) = document_settings.indent_width {
            format_options.set_indent_width(indent_width);
        }
""", """        if let (Some(indent_style), Some(indent_width)) =
            (document_settings.indent_style, document_settings.indent_width)
        {
            format_options.set_indent_style(indent_style);
            format_options.set_indent_width(indent_width);
        }
""")]),
    ("absent resets", "bug", [(S, """        if let Some(indent_style) = document_settings.indent_style {
            format_options.set_indent_style(indent_style);
        }
""", """        format_options.set_indent_style(document_settings.indent_style.unwrap_or_default());
        format_options.set_indent_style(settings::IndentStyle::Tab);
        if let Some(indent_style) = document_settings.indent_style {
            format_options.set_indent_style(indent_style);
        }
""")]),
    ("style swapped", "bug", [(V, "    if insert_spaces {\n        settings::IndentStyle::Space", "    if !insert_spaces {\n        settings::IndentStyle::Space")]),
    ("width capped", "bug", [(V, "    indent_width.try_into().unwrap_or_else(|err| {", "    indent_width.min(8).try_into().unwrap_or_else(|err| {")]),
    ("record after", "bug", [(M, """                            handlers_state::did_change_formatting_options(&params.text_document.uri, &params.options, &mut self.world);
                            respond(tx, handlers_format::document_formatting(params, &self.lsp_state, &self.world), LspResponse::DocumentFormatting)?;
""", """                            let uri = params.text_document.uri.clone();
                            let options = params.options.clone();
                            respond(tx, handlers_format::document_formatting(params, &self.lsp_state, &self.world), LspResponse::DocumentFormatting)?;
                            handlers_state::did_change_formatting_options(&uri, &options, &mut self.world);
""")]),
    ("range not recorded", "bug", [(M, """                            handlers_state::did_change_formatting_options(&params.text_document.uri, &params.options, &mut self.world);
                            respond(tx, handlers_format::document_range_formatting""", """                            respond(tx, handlers_format::document_range_formatting""")]),
    ("record only first", "bug", [(H, "    doc.settings.indent_style = Some(indent_style_from_vsc(opts.insert_spaces));\n", "    if doc.settings.indent_style.is_none() {\n        doc.settings.indent_style = Some(indent_style_from_vsc(opts.insert_spaces));\n    }\n")]),
    ("record line width", "bug", [(H, "doc.settings.indent_width = Some(indent_width_from_usize(opts.tab_size as usize));", "doc.settings.indent_width = Some(indent_width_from_usize(opts.insert_spaces as usize));")]),
    ("start with defaults", "bug", [(D, "            settings: Default::default(),\n", "            settings: crate::settings::DocumentSettings {\n                indent_style: Some(settings::IndentStyle::default()),\n                ..Default::default()\n            },\n")]),
    ("forgotten on edit", "bug", [(D, "        self.version = Some(new_version);\n", "        self.version = Some(new_version);\n        self.settings = Default::default();\n")]),
    ("if let", "same", [(W, """        match self {
            WorkspaceSettings::Toml(settings) => {
                // If there is an actual TOML, that wins
                settings.format.to_format_options(source)
            }
            WorkspaceSettings::Fallback(settings) => {
                // In the fallback case, merge with client provided `DocumentSettings`
                let format_options = settings.format.to_format_options(source);
                DocumentSettings::merge(format_options, document_settings)
            }
        }
""", """        let options = self.settings().format.to_format_options(source);
        if let WorkspaceSettings::Fallback(_) = self {
            return DocumentSettings::merge(options, document_settings);
        }
        options
""")]),
    ("builder", "same", [(S, """        if let Some(indent_style) = document_settings.indent_style {
            format_options.set_indent_style(indent_style);
        }
        if let Some(indent_width) = document_settings.indent_width {
            format_options.set_indent_width(indent_width);
        }
""", """        if let Some(indent_width) = document_settings.indent_width {
            format_options = format_options.with_indent_width(indent_width);
        }
        if let Some(indent_style) = document_settings.indent_style {
            format_options = format_options.with_indent_style(indent_style);
        }
""")]),
    ("unwrap_or", "same", [(S, """        if let Some(indent_style) = document_settings.indent_style {
            format_options.set_indent_style(indent_style);
        }
""", """        let indent_style = document_settings
            .indent_style
            .unwrap_or(if format_options.indent_style().is_tab() { settings::IndentStyle::Tab } else { settings::IndentStyle::Space });
        format_options.set_indent_style(indent_style);
"""), (S, "use air_r_formatter::context::RFormatOptions;\n", "use air_r_formatter::context::RFormatOptions;\nuse biome_formatter::FormatOptions as _;\n")]),
    ("match width", "same", [(V, """    indent_width.try_into().unwrap_or_else(|err| {
        tracing::warn!("Invalid indent width: {err:?}");
        settings::IndentWidth::default()
    })
""", """    match settings::IndentWidth::try_from(indent_width) {
        Ok(width) => width,
        Err(err) => {
            tracing::warn!("Invalid indent width: {err:?}");
            settings::IndentWidth::default()
        }
    }
""")]),
    ("record helper", "same", [(H, """    doc.settings.indent_style = Some(indent_style_from_vsc(opts.insert_spaces));

    // Note that `tabSize` in the LSP protocol corresponds to `indentSize` in VS Code options.
    // And if Code's `indentSize` is aliased to Code's `tabSize`, we get the latter here.
    doc.settings.indent_width = Some(indent_width_from_usize(opts.tab_size as usize));
""", """    record_options(&mut doc.settings, opts);
"""), (H, "async fn update_config(", """fn record_options(settings: &mut DocumentSettings, opts: &FormattingOptions) {
    settings.indent_width = Some(indent_width_from_usize(opts.tab_size as usize));
    settings.indent_style = Some(indent_style_from_vsc(opts.insert_spaces));
}

async fn update_config(""")]),
    ("record struct", "same", [(H, """    doc.settings.indent_style = Some(indent_style_from_vsc(opts.insert_spaces));

""", """    doc.settings = DocumentSettings {
        indent_style: Some(indent_style_from_vsc(opts.insert_spaces)),
        ..doc.settings.clone()
    };

""")]),
]
