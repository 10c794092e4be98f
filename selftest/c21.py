M = "crates/lsp/src/main_loop.rs"
T = "crates/lsp/src/tower_lsp.rs"
OUT = """    let out = match response {
        Ok(_) => Ok(()),
        Err(ref err) => Err(anyhow!("Error while handling request:\\n{err:?}")),
    };

    let response = response.map(into_lsp_response);

    // Ignore errors from a closed channel. This indicates the request has
    // been cancelled on the tower-lsp side.
    let _ = response_tx.send(response);

    out
"""
CAST = """        match $target {
            Ok($pat(resp)) => Ok(resp),
            Err(err) => Err(new_jsonrpc_error(format!("{err:?}"))),
"""
CASES = [
    ("error not sent", "bug", [(M, "    let _ = response_tx.send(response);\n", "    if response.is_ok() {\n        let _ = response_tx.send(response);\n    }\n")]),
    ("early return", "bug", [(M, "    let out = match response {\n        Ok(_) => Ok(()),\n        Err(ref err) => Err(anyhow!(\"Error while handling request:\\n{err:?}\")),\n    };\n", "    let response = Ok(response?);\n    let out = Ok(());\n")]),
    ("sent twice", "bug", [(M, "            LspRequest::Shutdown => {\n                            out", "            LspRequest::Shutdown => {\n                            let _ = tx.send(Ok(LspResponse::Shutdown(())));\n                            out")]),
    ("shutdown silent", "bug", [(M, "                            respond(tx, Ok(()), LspResponse::Shutdown)?;\n", "                            drop(tx);\n")]),
    ("handler ?", "bug", [(M, "respond(tx, handlers_ext::view_file(params, &self.world), LspResponse::AirViewFile)?;", "let out = handlers_ext::view_file(params, &self.world)?;\n                            respond(tx, Ok(out), LspResponse::AirViewFile)?;")]),
    ("wrong variant", "bug", [(M, "handlers_format::document_range_formatting(params, &self.lsp_state, &self.world), LspResponse::DocumentRangeFormatting)?;", "handlers_format::document_range_formatting(params, &self.lsp_state, &self.world), LspResponse::DocumentFormatting)?;")]),
    ("front wrong variant", "bug", [(T, "            self.request(LspRequest::DocumentRangeFormatting(params))\n                .await,\n            LspResponse::DocumentRangeFormatting\n", "            self.request(LspRequest::DocumentRangeFormatting(params))\n                .await,\n            LspResponse::DocumentFormatting\n")]),
    ("front asks other", "bug", [(T, "            self.request(LspRequest::DocumentFormatting(params)).await,\n            LspResponse::DocumentFormatting\n", "            self.request(LspRequest::DocumentFormatting(DocumentFormattingParams { text_document: params.text_document, options: Default::default(), work_done_progress_params: params.work_done_progress_params })).await,\n            LspResponse::DocumentFormatting\n")]),
    ("error as none", "bug", [(M, "respond(tx, handlers_format::document_formatting(params, &self.lsp_state, &self.world), LspResponse::DocumentFormatting)?;", "respond(tx, Ok(handlers_format::document_formatting(params, &self.lsp_state, &self.world).unwrap_or(None)), LspResponse::DocumentFormatting)?;")]),
    ("formatted none dropped", "bug", [(M, "respond(tx, handlers_format::document_formatting(params, &self.lsp_state, &self.world), LspResponse::DocumentFormatting)?;", "if let Some(edits) = handlers_format::document_formatting(params, &self.lsp_state, &self.world)? {\n respond(tx, Ok(Some(edits)), LspResponse::DocumentFormatting)?;\n}")]),
    ("respond first", "same", [(M, OUT, """    let failure = response
        .as_ref()
        .err()
        .map(|err| anyhow!("Error while handling request:\\n{err:?}"));
    let _ = response_tx.send(response.map(into_lsp_response));
    match failure {
        Some(err) => Err(err),
        None => Ok(()),
    }
""")]),
    ("respond match", "same", [(M, OUT, """    match response {
        Ok(value) => {
            let _ = response_tx.send(Ok(into_lsp_response(value)));
            Ok(())
        }
        Err(err) => {
            let out = anyhow!("Error while handling request:\\n{err:?}");
            let _ = response_tx.send(Err(err));
            Err(out)
        }
    }
""")]),
    ("shutdown order", "same", [(M, "                            out = LoopControl::Shutdown;\n                            respond(tx, Ok(()), LspResponse::Shutdown)?;\n", "                            respond(tx, Ok(()), LspResponse::Shutdown)?;\n                            out = LoopControl::Shutdown;\n")]),
    ("bind handler", "same", [(M, "respond(tx, handlers_ext::view_file(params, &self.world), LspResponse::AirViewFile)?;", "let response = handlers_ext::view_file(params, &self.world);\n                            respond(tx, response, LspResponse::AirViewFile)?;")]),
    ("cast nested", "same", [(T, CAST, "        match $target {\n            Err(err) => Err(new_jsonrpc_error(format!(\"{err:?}\"))),\n            Ok($pat(resp)) => Ok(resp),\n")]),
    ("front bind", "same", [(T, "        cast_response!(\n            self.request(LspRequest::DocumentFormatting(params)).await,\n            LspResponse::DocumentFormatting\n        )", "        let request = LspRequest::DocumentFormatting(params);\n        let response = self.request(request).await;\n        cast_response!(response, LspResponse::DocumentFormatting)")]),
    ("request match", "same", [(T, "        let response = response_rx.recv().await.unwrap()?;\n", "        let response = match response_rx.recv().await.unwrap() {\n            Ok(response) => response,\n            Err(err) => return Err(err),\n        };\n")]),
]
