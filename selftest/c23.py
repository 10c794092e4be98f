M = "crates/lsp/src/main_loop.rs"
LOOP = """            match self.handle_event(event).await {
                Err(err) => tracing::error!("Failure while handling event:\\n{err:?}"),
                Ok(LoopControl::Shutdown) => break,
                _ => {}
            }
"""
CASES = [
    ("break on error", "bug", [(M, """                Err(err) => tracing::error!("Failure while handling event:\\n{err:?}"),
                Ok(LoopControl::Shutdown) => break,
""", """                Err(err) => { tracing::error!("Failure while handling event:\\n{err:?}"); break },
                Ok(LoopControl::Shutdown) => break,
""")]),
    ("unwrap", "bug", [(M, LOOP, "            if let LoopControl::Shutdown = self.handle_event(event).await.unwrap() {\n                break;\n            }\n")]),
    ("silent", "bug", [(M, "                Err(err) => tracing::error!(\"Failure while handling event:\\n{err:?}\"),\n                Ok(LoopControl::Shutdown) => break,", "                Err(_) => {}\n                Ok(LoopControl::Shutdown) => break,")]),
    ("three failures", "bug", [(M, "        loop {\n            let event = self.next_event().await;\n            match self.handle_event(event).await {\n                Err(err) => tracing::error!(\"Failure while handling event:\\n{err:?}\"),", "        let mut failures = 0;\n        loop {\n            let event = self.next_event().await;\n            match self.handle_event(event).await {\n                Err(err) => { tracing::error!(\"Failure while handling event:\\n{err:?}\"); failures += 1; if failures > 3 { break } },")]),
    ("close ends", "bug", [(M, "                            handlers_state::did_close(params, &mut self.world)?;\n", "                            handlers_state::did_close(params, &mut self.world)?;\n                            if self.world.documents.is_empty() { out = LoopControl::Shutdown; }\n")]),
    ("handler unwrap", "bug", [(M, "                            handlers_state::did_close(params, &mut self.world)?;\n", "                            handlers_state::did_close(params, &mut self.world).unwrap();\n")]),
    ("send unwrap", "bug", [(M, "    let _ = response_tx.send(response);\n", "    response_tx.send(response).unwrap();\n")]),
    ("error dropped", "bug", [(M, "handlers_state::did_close(params, &mut self.world)?;", "let _ = handlers_state::did_close(params, &mut self.world);")]),
    ("shutdown unanswered", "bug", [(M, "                            respond(tx, Ok(()), LspResponse::Shutdown)?;\n", "                            drop(tx);\n")]),
    ("failing shutdown", "bug", [(M, "                            out = LoopControl::Shutdown;\n                            respond(tx, Ok(()), LspResponse::Shutdown)?;\n", "                            out = LoopControl::Shutdown;\n                            return Ok(out);\n")]),
    ("if let", "same", [(M, LOOP, "            let outcome = self.handle_event(event).await;\n            if let Err(err) = &outcome {\n                tracing::error!(\"Failure while handling event:\\n{err:?}\");\n                continue;\n            }\n            if matches!(outcome, Ok(LoopControl::Shutdown)) {\n                break;\n            }\n")]),
    ("flag", "same", [(M, "        loop {\n            let event = self.next_event().await;\n" + LOOP + "        }\n", "        let mut running = true;\n        while running {\n            let event = self.next_event().await;\n            match self.handle_event(event).await {\n                Err(err) => tracing::error!(\"Failure while handling event:\\n{err:?}\"),\n                Ok(LoopControl::Shutdown) => running = false,\n                Ok(LoopControl::None) => {}\n            }\n        }\n")]),
    ("return control", "same", [(M, "                            out = LoopControl::Shutdown;\n                            respond(tx, Ok(()), LspResponse::Shutdown)?;\n", "                            respond(tx, Ok(()), LspResponse::Shutdown)?;\n                            return Ok(LoopControl::Shutdown);\n")]),
    ("recv inline", "same", [(M, "            let event = self.next_event().await;\n", "            let event = self.events_rx.recv().await.unwrap();\n")]),
    ("while let", "same", [(M, "        loop {\n            let event = self.next_event().await;\n            match", "        while let Some(event) = self.events_rx.recv().await {\n            match")]),
    ("log and go on", "same", [(M, "                            handlers_state::did_close(params, &mut self.world)?;\n", "                            if let Err(err) = handlers_state::did_close(params, &mut self.world) {\n                                tracing::error!(\"Failure while closing:\\n{err:?}\");\n                            }\n")]),
]
