W = "crates/lsp/src/workspaces.rs"
S = "crates/lsp/src/handlers_state.rs"
RS = "crates/workspace/src/resolve.rs"
CASES = [
    ("invalid unregistered", "bug", [(W, "                failed_to_open_workspace_folder(url, error);\n                Vec::new()\n", "                failed_to_open_workspace_folder(url, error);\n                return;\n")]),
    ("deleted untold", "bug", [(W, "                changed = true;\n            }\n", "            }\n"), (W, "                workspace_settings_resolver.add(&directory, settings);\n            }\n        }\n", "                changed = true;\n                workspace_settings_resolver.add(&directory, settings);\n            }\n        }\n")]),
    ("nested missed", "bug", [(W, "path.starts_with(item.path()) || item.path().starts_with(directory)", "path.starts_with(item.path())")]),
    ("below path", "bug", [(W, "item.path().starts_with(directory)", "item.path().starts_with(&path)")]),
    ("closest only", "bug", [(W, "item.path().starts_with(directory));", "item.path().starts_with(directory))\n            .take(1);")]),
    ("no clear", "bug", [(W, "                workspace_settings_resolver.clear();\n", "                let _ = workspace_settings_resolver;\n")]),
    ("clear after", "bug", [(W, "                workspace_settings_resolver.clear();\n", "                let _ = workspace_settings_resolver;\n"), (W, "                workspace_settings_resolver.add(&directory, settings);\n            }\n        }\n", "                workspace_settings_resolver.add(&directory, settings);\n            }\n            workspace_match.value_mut().clear();\n        }\n")]),
    ("break on error", "bug", [(W, "                    continue;\n", "                    break;\n")]),
    ("reload from file dir", "bug", [(W, "match discover_settings(&[workspace_path])", "match discover_settings(&[directory])")]),
    ("open keyed by parent", "bug", [(W, "self.path_to_settings_resolver.add(&path, settings_resolver);", "self.path_to_settings_resolver.add(path.parent().unwrap_or(&path), settings_resolver);")]),
    ("open first only", "bug", [(W, """            settings_resolver.add(&directory, settings);
        }

        tracing::trace!("Adding""", """            settings_resolver.add(&directory, settings);
            break;
        }

        tracing::trace!("Adding""")]),
    ("open replaced dir", "bug", [(W, """            settings_resolver.add(&directory, settings);
        }

        tracing::trace!("Adding""", """            let _ = &directory;
            settings_resolver.add(&path, settings);
        }

        tracing::trace!("Adding""")]),
    ("close clears all", "bug", [(W, "self.path_to_settings_resolver.remove(&path);", "let _ = &path;\n                self.path_to_settings_resolver.clear();")]),
    ("close noop", "bug", [(W, "self.path_to_settings_resolver.remove(&path);", "let _ = self.path_to_settings_resolver.resolve(&path);")]),
    ("close normalized", "bug", [(W, "self.path_to_settings_resolver.remove(&path);", "self.path_to_settings_resolver.remove(fs::normalize_path(&path));")]),
    ("single resolution", "bug", [(W, ".and_then(|resolution| resolution.value().resolve(path))", ".and_then(|resolution| resolution.value().resolve(resolution.path()))")]),
    ("untitled any", "same", [(W, 'url.scheme() == "untitled" && self.path_to_settings_resolver.len() == 1', 'self.path_to_settings_resolver.len() == 1 && url.scheme() == "untitled"')]),
    ("removed opened", "bug", [(S, "lsp_state.close_workspace_folder(&uri);", "lsp_state.open_workspace_folder(&uri);")]),
    ("removed first only", "bug", [(S, "in params.event.removed {", "in params.event.removed.into_iter().take(1) {")]),
    ("only watched first", "bug", [(S, "            changed_settings = true;\n", "            changed_settings = true;\n            break;\n")]),
    ("last wins", "bug", [(S, """        if lsp_state
            .workspace_settings_resolver
            .reload_workspaces_matched_by_url(&change.uri)
        {
            changed_settings = true;
        }
""", """        changed_settings = lsp_state
            .workspace_settings_resolver
            .reload_workspaces_matched_by_url(&change.uri);
""")]),
    ("deleted ignored", "bug", [(S, "    for change in &params.changes {\n", "    for change in &params.changes {\n        if change.typ == lsp_types::FileChangeType::DELETED {\n            continue;\n        }\n")]),
    ("any short circuit", "bug", [(S, """    for change in &params.changes {
        if lsp_state
            .workspace_settings_resolver
            .reload_workspaces_matched_by_url(&change.uri)
        {
            changed_settings = true;
        }
    }
""", """    changed_settings |= params.changes.iter().any(|change| {
        lsp_state
            .workspace_settings_resolver
            .reload_workspaces_matched_by_url(&change.uri)
    });
""")]),
    ("not told", "bug", [(S, "    if changed_settings {\n", "    if changed_settings && lsp_state.workspace_settings_resolver.is_single() {\n"), (W, "    pub(crate) fn close_workspace_folder", "    pub(crate) fn is_single(&self) -> bool {\n        self.path_to_settings_resolver.len() == 1\n    }\n\n    pub(crate) fn close_workspace_folder")]),
    ("did_close closes folder", "bug", [(S, "pub(crate) fn did_close(\n    params: DidCloseTextDocumentParams,\n    state: &mut WorldState,\n", "pub(crate) fn did_close(\n    params: DidCloseTextDocumentParams,\n    lsp_state: &mut LspState,\n    state: &mut WorldState,\n"), (S, "    // Publish empty set", "    if state.documents.len() == 1 {\n        lsp_state.close_workspace_folder(&uri);\n    }\n\n    // Publish empty set"), ("crates/lsp/src/main_loop.rs", "handlers_state::did_close(params, &mut self.world)", "handlers_state::did_close(params, &mut self.lsp_state, &mut self.world)")]),
    ("startup skips first", "bug", [(W, "for workspace_folder in workspace_folders {", "for workspace_folder in workspace_folders.into_iter().skip(1) {")]),
    ("startup ignored", "bug", [(S, "WorkspaceSettingsResolver::from_workspace_folders(\n        params.workspace_folders.unwrap_or_default(),\n    );", "WorkspaceSettingsResolver::from_workspace_folders(Vec::new());")]),
    ("match flag", "same", [(W, "            {\n                let workspace_settings_resolver = workspace_match.value_mut();\n                workspace_settings_resolver.clear();\n                changed = true;\n            }\n", "            workspace_match.value_mut().clear();\n            changed = true;\n")]),
    ("if let ok", "same", [(W, """            let discovered_settings = match discover_settings(&[workspace_path]) {
                Ok(discovered_settings) => discovered_settings,
                Err(error) => {
                    let workspace_path = workspace_path.display();
                    tracing::error!("Failed to reload workspace for '{workspace_path}':\\n{error}");
                    continue;
                }
            };

            // Now add in all rediscovered settings
            let workspace_settings_resolver = workspace_match.value_mut();

            for DiscoveredSettings {
                directory,
                settings,
            } in discovered_settings
            {
                workspace_settings_resolver.add(&directory, settings);
            }
""", """            match discover_settings(&[workspace_path]) {
                Ok(found) => {
                    let resolver = workspace_match.value_mut();
                    for item in found {
                        resolver.add(item.directory, item.settings);
                    }
                }
                Err(error) => tracing::error!("Failed to reload workspace: {error}"),
            }
""")]),
    ("filter in loop", "same", [(W, """            .items_mut()
            .filter(|item| path.starts_with(item.path()) || item.path().starts_with(directory));
""", """            .items_mut();
"""), (W, "            // Clear existing settings up front", "            let governed = path.starts_with(workspace_match.path())\n                || workspace_match.path().starts_with(directory);\n            if !governed {\n                continue;\n            }\n\n            // Clear existing settings up front")]),
    ("for_each folders", "same", [(S, """    for lsp_types::WorkspaceFolder { uri, .. } in params.event.removed {
        lsp_state.close_workspace_folder(&uri);
    }
""", """    params
        .event
        .removed
        .iter()
        .for_each(|folder| lsp_state.close_workspace_folder(&folder.uri));
""")]),
    ("match lookup", "same", [(W, """        self.path_to_settings_resolver
            .resolve(path)
            .and_then(|resolution| resolution.value().resolve(path))
            .map_or_else(
                || {
                    WorkspaceSettings::Fallback(
                        self.path_to_settings_resolver.fallback().fallback(),
                    )
                },
                |resolution| WorkspaceSettings::Toml(resolution.value()),
            )
""", """        if let Some(folder) = self.path_to_settings_resolver.resolve(path) {
            if let Some(item) = folder.value().resolve(path) {
                return WorkspaceSettings::Toml(item.value());
            }
        }
        WorkspaceSettings::Fallback(self.path_to_settings_resolver.fallback().fallback())
""")]),
    ("fold changed", "same", [(S, """        if lsp_state
            .workspace_settings_resolver
            .reload_workspaces_matched_by_url(&change.uri)
        {
            changed_settings = true;
        }
""", """        changed_settings |= lsp_state
            .workspace_settings_resolver
            .reload_workspaces_matched_by_url(&change.uri);
""")]),
    ("helper register", "same", [(W, """        // How to do better here?
        let fallback = Settings::default();

        let mut settings_resolver = SettingsResolver::new(fallback);

        for DiscoveredSettings {
            directory,
            settings,
        } in discovered_settings
        {
            settings_resolver.add(&directory, settings);
        }
""", "        let settings_resolver = Self::collect(discovered_settings);\n"), (W, "    pub(crate) fn close_workspace_folder", "    fn collect(items: Vec<DiscoveredSettings>) -> SettingsResolver {\n        let mut out = SettingsResolver::new(Settings::default());\n        for item in items {\n            out.add(item.directory, item.settings);\n        }\n        out\n    }\n\n    pub(crate) fn close_workspace_folder")]),
    ("reload all folders", "same", [(W, "path.starts_with(item.path()) || item.path().starts_with(directory)", "{ let _ = (&item, &directory); true }")]),
]
