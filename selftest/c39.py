M = "crates/lsp/src/main_loop.rs"
G = "crates/lsp/src/logging.rs"
ARM = """                handle = self.tasks.next() => match handle.unwrap() {
                    // A joined task returned an event for us, handle it
                    Ok(Ok(Some(event))) => return event,

                    // Otherwise relay any errors and loop back into select
                    Err(err) => tracing::error!("A task panicked:\\n{err:?}"),
                    Ok(Err(err)) => tracing::error!("A task failed:\\n{err:?}"),
                    _ => (),
                },
"""
CASES = [
    ("join unwrap", "bug", [(M, ARM, """                handle = self.tasks.next() => match handle.unwrap().unwrap() {
                    Ok(Some(event)) => return event,
                    Err(err) => tracing::error!("A task failed:\\n{err:?}"),
                    _ => (),
                },
""")]),
    ("failure unlogged", "bug", [(M, "                    Ok(Err(err)) => tracing::error!(\"A task failed:\\n{err:?}\"),\n", "")]),
    ("panic unlogged", "bug", [(M, "                    Err(err) => tracing::error!(\"A task panicked:\\n{err:?}\"),\n", "                    Err(_) => (),\n")]),
    ("event dropped", "bug", [(M, "                    Ok(Ok(Some(event))) => return event,\n", "                    Ok(Ok(Some(AuxiliaryEvent::SpawnedTask(handle)))) => return AuxiliaryEvent::SpawnedTask(handle),\n")]),
    ("no pending", "bug", [(M, "        tasks.push(pending);\n", "        drop(pending);\n")]),
    ("handle dropped", "bug", [(M, "AuxiliaryEvent::SpawnedTask(handle) => self.tasks.push(Box::pin(handle)),", "AuxiliaryEvent::SpawnedTask(handle) => drop(handle),")]),
    ("handle not sent", "bug", [(M, "        if let Err(err) = self.send(AuxiliaryEvent::SpawnedTask(handle)) {\n            tracing::warn!(\"Failed to send task to auxiliary loop due to {err}\");\n        }\n", "        drop(handle);\n")]),
    ("empty log skipped", "bug", [(G, "            self.client\n                .log_message(MessageType::LOG, message.contents)\n                .await\n", "            if message.contents.len() > 1 {\n                self.client\n                    .log_message(MessageType::LOG, message.contents)\n                    .await\n            }\n")]),
    ("log stops", "bug", [(G, "        while let Some(message) = self.log_rx.recv().await {\n", "        while let Some(message) = self.log_rx.recv().await {\n            if message.contents.is_empty() {\n                break;\n            }\n")]),
    ("write unwrap", "bug", [(G, "            .map_err(IoError::other)?;\n\n        Ok(buf.len())", "            .unwrap();\n\n        Ok(buf.len())")]),
    ("log not started", "bug", [(M, "        set.spawn(async move { log_thread_state.start().await });", "        drop(log_thread_state);")]),
    ("spawned late", "bug", [(M, "        set.spawn(async move { auxiliary_state.start().await });\n", ""), (M, "        tracing::trace!(\"Main loop closed.", "        set.spawn(async move { auxiliary_state.start().await });\n        tracing::trace!(\"Main loop closed.")]),
    ("shut early", "bug", [(M, "        set.spawn(async move { auxiliary_state.start().await });\n", "        set.spawn(async move { auxiliary_state.start().await });\n        set.shutdown().await;\n")]),
    ("nested match", "same", [(M, ARM, """                handle = self.tasks.next() => match handle.unwrap() {
                    Ok(outcome) => match outcome {
                        Ok(Some(event)) => return event,
                        Ok(None) => {}
                        Err(err) => tracing::error!("A task failed:\\n{err:?}"),
                    },
                    Err(err) => tracing::error!("A task panicked:\\n{err:?}"),
                },
""")]),
    ("helper", "same", [(M, ARM, """                handle = self.tasks.next() => {
                    if let Some(event) = joined(handle.unwrap()) {
                        return event;
                    }
                }
"""), (M, "// Needed for spawning the loop\nunsafe impl Sync for AuxiliaryState", """fn joined(
    outcome: Result<anyhow::Result<Option<AuxiliaryEvent>>, tokio::task::JoinError>,
) -> Option<AuxiliaryEvent> {
    match outcome {
        Ok(Ok(event)) => event,
        Err(err) => {
            tracing::error!("A task panicked:\\n{err:?}");
            None
        }
        Ok(Err(err)) => {
            tracing::error!("A task failed:\\n{err:?}");
            None
        }
    }
}

// Needed for spawning the loop
unsafe impl Sync for AuxiliaryState""")]),
    ("start rearranged", "same", [(M, "            match self.next_event().await {\n                AuxiliaryEvent::SpawnedTask(handle) => self.tasks.push(Box::pin(handle)),\n", "            let event = self.next_event().await;\n            match event {\n                AuxiliaryEvent::SpawnedTask(handle) => {\n                    let task = Box::pin(handle);\n                    self.tasks.push(task)\n                }\n")]),
    ("log loop", "same", [(G, "        while let Some(message) = self.log_rx.recv().await {\n            self.client\n                .log_message(MessageType::LOG, message.contents)\n                .await\n        }\n", "        loop {\n            let Some(message) = self.log_rx.recv().await else {\n                break;\n            };\n            self.client\n                .log_message(MessageType::LOG, message.contents)\n                .await;\n        }\n")]),
    ("write match", "same", [(G, "        self.log_tx\n            .send(LogMessage { contents })\n            .map_err(IoError::other)?;\n\n        Ok(buf.len())", "        match self.log_tx.send(LogMessage { contents }) {\n            Ok(()) => Ok(buf.len()),\n            Err(err) => Err(IoError::other(err)),\n        }")]),
]
