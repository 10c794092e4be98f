S = "crates/lsp/src/handlers_state.rs"
V = "crates/lsp/src/settings_vsc.rs"
G = "crates/lsp/src/settings.rs"
L = "crates/lsp/src/logging.rs"
H = "crates/lsp/src/handlers.rs"
CASES = [
    ("wrong section", "bug", [(V, '"indent_size" => "editor.indentSize"', '"indent_size" => "editor.tabSize"')]),
    ("section typo", "bug", [(V, '"air.dependencyLogLevels"', '"air.dependencyLogLevel"')]),
    ("section forgotten", "bug", [(V, '            "tab_size" => "editor.tabSize",\n', "")]),
    ("global order", "bug", [(S, "    items.append(&mut global_items);\n", ""), (S, "    let document_keys = VscDocumentSettings", "    let global_keys = VscGlobalSettings::FIELD_NAMES_AS_ARRAY;\n    items.extend(global_keys.iter().map(|key| ConfigurationItem { scope_uri: None, section: Some(VscGlobalSettings::section_from_key(key).into()) }));\n    let document_keys = VscDocumentSettings")]),
    ("no by_ref", "bug", [(S, "let items = configs.by_ref().take(n_diagnostics_items);", "let items = configs.clone().take(n_diagnostics_items);")]),
    ("documents no by_ref", "bug", [(S, "    mut items: impl Iterator<Item = Value>,\n    uris", "    items: impl Iterator<Item = Value> + Clone,\n    uris"), (S, "let uri_items = items.by_ref().take(keys.len());", "let uri_items = items.clone().take(keys.len());")]),
    ("take diag size", "bug", [(S, "configs.by_ref().take(n_diagnostics_items)", "configs.by_ref().take(n_global_items)")]),
    ("product order", "bug", [(S, "itertools::iproduct!(uris.iter(), document_keys.iter())\n            .map(|(uri, key)|", "itertools::iproduct!(document_keys.iter(), uris.iter())\n            .map(|(key, uri)|")]),
    ("no scope", "bug", [(S, "scope_uri: Some(uri.clone()),", "scope_uri: uris.first().cloned(),")]),
    ("count check wrong", "bug", [(S, "let n_items = n_diagnostics_items + n_document_items + n_global_items;", "let n_items = n_diagnostics_items + n_document_items + n_diagnostics_items;")]),
    ("partial conversion", "bug", [(V, "                _ => (None, None),", "                (Some(insert_spaces), _, _) => (Some(indent_style_from_vsc(insert_spaces)), None),\n                _ => (None, None),")]),
    ("alias ignored", "bug", [(V, "            tab_size\n        }", "            return settings::IndentWidth::default();\n        }")]),
    ("alias spelling", "bug", [(V, 'if var != "tabSize"', 'if var != "tabsize"')]),
    ("tab size wins", "bug", [(V, "VscIndentSize::Size(ref size) => *size,", "VscIndentSize::Size(_) => tab_size,")]),
    ("style inverted", "bug", [(V, "    if insert_spaces {\n", "    if !insert_spaces {\n")]),
    ("first document only", "bug", [(S, "state.get_document_mut_or_error(&uri)?.settings = config;", "state.get_document_mut_or_error(&uri)?.settings.indent_width = config.indent_width;")]),
    ("settings not stored", "bug", [(S, "    lsp_state.settings = settings.into();\n", "    let _settings: crate::settings::GlobalSettings = settings.into();\n")]),
    ("sync on disable", "bug", [(S, "if !old_sync_file_settings_with_client && lsp_state.settings", "if old_sync_file_settings_with_client && lsp_state.settings")]),
    ("sync early", "bug", [(S, "let old_sync_file_settings_with_client = lsp_state.settings.sync_file_settings_with_client;\n", ""), (S, "    // If the client just enabled", "    let old_sync_file_settings_with_client = lsp_state.settings.sync_file_settings_with_client;\n    // If the client just enabled")]),
    ("reload skipped", "bug", [(S, "    log_state.reload(settings.log_level, settings.dependency_log_levels.clone());\n", "    let _ = log_state;\n")]),
    ("reload drops deps", "bug", [(S, "log_state.reload(settings.log_level, settings.dependency_log_levels.clone())", "log_state.reload(settings.log_level, None)")]),
    ("open updates nothing", "bug", [(S, "update_config(vec![uri.clone()], lsp_state, state)", "update_config(vec![], lsp_state, state)")]),
    ("init keys snake", "bug", [(G, '#[serde(rename_all = "camelCase")]\n', "")]),
    ("field renamed by serde", "bug", [(V, "    pub indent_size: Option<VscIndentSize>,", '    #[serde(rename = "indentSize")]\n    pub indent_size: Option<VscIndentSize>,')]),
    ("level case", "bug", [(L, '#[serde(rename_all = "lowercase")]', '#[serde(rename_all = "UPPERCASE")]')]),
    ("level table", "bug", [(L, "Self::Debug => tracing::Level::DEBUG,", "Self::Debug => tracing::Level::TRACE,")]),
    ("unregistered", "bug", [(H, "        registrations.append(&mut config_global_registrations);\n", "        let _ = &mut config_global_registrations;\n")]),
    ("capability ignored", "bug", [(S, "    if !lsp_state.capabilities.request_configuration {\n        // Can't request an update, client doesn't support it\n        return Ok(());\n    }\n", "")]),
    ("helper item", "same", [(S, "async fn update_config(", "fn global_item(section: &str) -> ConfigurationItem {\n    ConfigurationItem {\n        scope_uri: None,\n        section: Some(section.into()),\n    }\n}\n\nasync fn update_config("), (S, """        .map(|key| ConfigurationItem {
            scope_uri: None,
            section: Some(VscGlobalSettings::section_from_key(key).into()),
        })""", "        .map(|key| global_item(VscGlobalSettings::section_from_key(key)))")]),
    ("extend", "same", [(S, "    items.append(&mut global_items);\n", "    items.extend(global_items);\n"), (S, "let mut global_items", "let global_items")]),
    ("nested loop", "same", [(S, """    let mut document_items: Vec<ConfigurationItem> =
        itertools::iproduct!(uris.iter(), document_keys.iter())
            .map(|(uri, key)| ConfigurationItem {
                scope_uri: Some(uri.clone()),
                section: Some(VscDocumentSettings::section_from_key(key).into()),
            })
            .collect();
    items.append(&mut document_items);
""", """    for uri in &uris {
        for key in document_keys.iter() {
            items.push(ConfigurationItem {
                scope_uri: Some(uri.clone()),
                section: Some(VscDocumentSettings::section_from_key(key).into()),
            });
        }
    }
""")]),
    ("loop map", "same", [(S, """        std::iter::zip(uri_keys, uri_items).for_each(|(key, item)| {
            map.insert(key.into(), item);
        });
""", """        for (key, item) in uri_keys.zip(uri_items) {
            map.insert(key.to_string(), item);
        }
""")]),
    ("sum order", "same", [(S, "n_diagnostics_items + n_document_items + n_global_items;", "n_global_items + (n_document_items + n_diagnostics_items);")]),
    ("match style", "same", [(V, "    if insert_spaces {\n        settings::IndentStyle::Space\n    } else {\n        settings::IndentStyle::Tab\n    }", "    match insert_spaces {\n        true => settings::IndentStyle::Space,\n        false => settings::IndentStyle::Tab,\n    }")]),
    ("let else conv", "same", [(V, "            VscIndentSize::Alias(ref var) => {\n            if var", "            VscIndentSize::Alias(ref var) => {\n            if var")]) if False else
    ("alias eq", "same", [(V, """            if var != "tabSize" {
                tracing::warn!("Unknown indent alias {var}, using default");
                return settings::IndentWidth::default();
            }
            tab_size
""", """            if var == "tabSize" {
                tab_size
            } else {
                tracing::warn!("Unknown indent alias {var}, using default");
                return settings::IndentWidth::default();
            }
""")]),
    ("unwrap_or false", "same", [(V, ".unwrap_or_default(),", ".unwrap_or(false),")]),
    ("let settings", "same", [(S, "    lsp_state.settings = settings.into();\n\n    // If the client just enabled file settings synchronisation, sync them\n    if !old_sync_file_settings_with_client && lsp_state.settings.sync_file_settings_with_client {", "    lsp_state.settings = settings.into();\n    let enabled = lsp_state.settings.sync_file_settings_with_client;\n    if enabled && !old_sync_file_settings_with_client {")]),
    ("count first", "same", [(S, "if configs.len() != n_items {", "let n_configs = configs.len();\n    if n_configs != n_items {")]),
]
