M = "crates/lsp/src/main_loop.rs"
T = "crates/lsp/src/tower_lsp.rs"
H = "crates/lsp/src/handlers_state.rs"
I = "crates/lsp/src/handlers.rs"
CASES = [
    ("close drops", "bug", [(T, "        self.notify(LspNotification::DidCloseTextDocument(params));\n", "        let _ = params;\n")]),
    ("close as save", "bug", [(M, "                            handlers_state::did_close(params, &mut self.world)?;\n", "                            let _ = params;\n")]),
    ("watched only one", "bug", [(T, "        self.notify(LspNotification::DidChangeWatchedFiles(params));", "        if params.changes.len() < 2 {\n            self.notify(LspNotification::DidChangeWatchedFiles(params));\n        }")]),
    ("watched as config", "bug", [(M, "handlers_state::did_change_configuration(params, &mut self.lsp_state, &mut self.world).await?;", "let _ = params;\n handlers_state::did_change_watched_files(lsp_types::DidChangeWatchedFilesParams { changes: vec![] }, &mut self.lsp_state, &self.world).await?;"), (M, "use tower_lsp::Client;", "use tower_lsp::Client;\nuse tower_lsp::lsp_types;")]),
    ("range as full", "bug", [(T, "            self.request(LspRequest::DocumentRangeFormatting(params))\n                .await,\n            LspResponse::DocumentRangeFormatting\n", "            self.request(LspRequest::DocumentFormatting(DocumentFormattingParams { text_document: params.text_document, options: params.options, work_done_progress_params: params.work_done_progress_params }))\n                .await,\n            LspResponse::DocumentFormatting\n")]),
    ("snapshot world", "bug", [(M, "handlers_state::did_close(params, &mut self.world)?;", "let mut world = self.world.clone();\n handlers_state::did_close(params, &mut world)?;\n drop(world);")]),
    ("ignored when idle", "bug", [(M, "handlers_state::did_change_configuration(params, &mut self.lsp_state, &mut self.world).await?;", "if !self.world.documents.is_empty() { handlers_state::did_change_configuration(params, &mut self.lsp_state, &mut self.world).await?; }")]),
    ("range not advertised", "bug", [(H, "            document_range_formatting_provider: Some(OneOf::Left(true)),\n", "")]),
    ("hover advertised", "bug", [(H, "            document_formatting_provider: Some(OneOf::Left(true)),\n", "            document_formatting_provider: Some(OneOf::Left(true)),\n            references_provider: Some(OneOf::Left(true)),\n")]),
    ("sync none", "bug", [(H, "TextDocumentSyncKind::INCREMENTAL", "TextDocumentSyncKind::NONE")]),
    ("no change notifications", "bug", [(H, "                    change_notifications: Some(OneOf::Left(true)),", "                    change_notifications: Some(OneOf::Left(false)),")]),
    ("watch flag", "bug", [(I, "    if lsp_state\n        .capabilities\n        .dynamic_registration_for_did_change_watched_files\n", "    if lsp_state\n        .capabilities\n        .dynamic_registration_for_did_change_configuration\n")]),
    ("config method", "bug", [(I, 'String::from("workspace/didChangeConfiguration")', 'String::from("workspace/didChangeWatchedFiles")')]),
    ("folders unimplemented", "bug", [(T, "    async fn did_change_workspace_folders(&self, params: DidChangeWorkspaceFoldersParams) {\n        self.notify(LspNotification::DidChangeWorkspaceFolders(params));\n    }\n\n", "")]),
    ("dispatch helper", "same", [(M, "                            handlers_state::did_close(params, &mut self.world)?;\n", "                            self.close(params)?;\n"), (M, "    async fn next_event(&mut self) -> Event {", "    fn close(&mut self, params: tower_lsp::lsp_types::DidCloseTextDocumentParams) -> anyhow::Result<()> {\n        handlers_state::did_close(params, &mut self.world)\n    }\n\n    async fn next_event(&mut self) -> Event {")]),
    ("notify helper", "same", [(T, "        self.notify(LspNotification::DidCloseTextDocument(params));", "        let notification = LspNotification::DidCloseTextDocument(params);\n        tracing::debug!(\"closing\");\n        self.notify(notification);")]),
    ("capabilities built", "same", [(H, "            document_range_formatting_provider: Some(OneOf::Left(true)),\n", "            document_range_formatting_provider: Some(OneOf::Right(Default::default())),\n")]),
    ("registrations extend", "same", [(I, "        registrations.append(&mut config_document_registrations);\n        registrations.append(&mut config_diagnostics_registrations);\n", "        registrations.extend(config_document_registrations.drain(..));\n        registrations.append(&mut config_diagnostics_registrations);\n")]),
    ("registrations loop", "same", [(I, "    fields\n        .into_iter()\n        .map(|field| lsp_types::Registration {\n            id: uuid::Uuid::new_v4().to_string(),\n            method: String::from(\"workspace/didChangeConfiguration\"),\n            register_options: Some(serde_json::json!({ \"section\": into_section(field) })),\n        })\n        .collect()", "    let mut out = Vec::with_capacity(fields.len());\n    for field in fields {\n        let section = into_section(field);\n        out.push(lsp_types::Registration {\n            id: uuid::Uuid::new_v4().to_string(),\n            method: \"workspace/didChangeConfiguration\".to_string(),\n            register_options: Some(serde_json::json!({ \"section\": section })),\n        });\n    }\n    out")]),
    ("early capability return", "same", [(I, "    if !registrations.is_empty() {\n        lsp_state\n            .client\n            .register_capability(registrations)\n            .instrument(span.exit())\n            .await?;\n    }\n\n    Ok(())", "    if registrations.is_empty() {\n        return Ok(());\n    }\n    lsp_state\n        .client\n        .register_capability(registrations)\n        .instrument(span.exit())\n        .await?;\n    Ok(())")]),
]
