D = "crates/workspace/src/discovery.rs"
PUSH = "                        self.files.push(Ok(entry.into_path()));\n                        ignore::WalkState::Continue"
ERR = "                self.files.push(Err(error));\n                return ignore::WalkState::Continue;"
DROP = "        if files.is_empty() {\n            *files = std::mem::take(&mut self.files);\n        } else {\n            files.append(&mut self.files);\n        }"
LOCK = "        let mut files = self.state.files.lock().unwrap();\n"
FIN = "        self.files.into_inner().unwrap()\n"
ADD = "    for path in paths {\n        builder.add(path);\n    }\n"
SPLIT = "    let Some((first_path, paths)) = paths.split_first() else {"
CASES = [
    ("error dropped", "bug", [(D, ERR, "                tracing::trace!(\"{error}\");\n                return ignore::WalkState::Continue;")]),
    ("error quits", "bug", [(D, ERR, "                self.files.push(Err(error));\n                return ignore::WalkState::Quit;")]),
    ("io errors dropped", "bug", [(D, ERR, "                if !error.is_partial() {\n                    self.files.push(Err(error));\n                }\n                return ignore::WalkState::Continue;")]),
    ("error twice", "bug", [(D, ERR, "                self.files.push(Err(error.clone()));\n                self.files.push(Err(error));\n                return ignore::WalkState::Continue;")]),
    ("overwrite", "bug", [(D, DROP, "        *files = std::mem::take(&mut self.files);")]),
    ("longest wins", "bug", [(D, DROP, "        if files.len() < self.files.len() {\n            *files = std::mem::take(&mut self.files);\n        } else {\n            files.append(&mut self.files);\n        }")]),
    ("two locks", "bug", [(D, LOCK + "\n", ""), (D, "        // Transfer files gathered on this thread to the global set\n" + DROP, "        let first = self.state.files.lock().unwrap().is_empty();\n        if first {\n            *self.state.files.lock().unwrap() = std::mem::take(&mut self.files);\n        } else {\n            self.state.files.lock().unwrap().append(&mut self.files);\n        }")]),
    ("only first thread", "bug", [(D, DROP, "        if files.is_empty() {\n            *files = std::mem::take(&mut self.files);\n        }")]),
    ("twice", "bug", [(D, DROP, "        files.extend(self.files.iter().flatten().cloned().map(Ok));\n        files.append(&mut self.files);")]),
    ("dedup result", "bug", [(D, FIN, "        self.files.into_inner().unwrap().into_iter().filter(|f| f.is_ok()).collect()\n")]),
    ("push twice", "bug", [(D, PUSH, "                        if glob.original().contains('*') {\n                            self.files.push(Ok(entry.path().to_path_buf()));\n                        }\n" + PUSH)]),
    ("quit after file", "bug", [(D, PUSH, "                        let quit = is_directly_supplied;\n                        self.files.push(Ok(entry.into_path()));\n                        if quit {\n                            return ignore::WalkState::Quit;\n                        }\n                        ignore::WalkState::Continue")]),
    ("forget on error", "bug", [(D, ERR, "                self.files = vec![Err(error)];\n                return ignore::WalkState::Continue;")]),
    ("depth", "bug", [(D, "    builder.hidden(true);", "    builder.hidden(true);\n    builder.max_depth(Some(32));")]),
    ("size", "bug", [(D, "    builder.hidden(true);", "    builder.hidden(true);\n    builder.max_filesize(Some(1 << 20));")]),
    ("first path twice", "bug", [(D, SPLIT, "    let Some(first_path) = paths.first() else {"), (D, ADD, "    for path in &paths {\n        builder.add(path);\n    }\n")]),
    ("missing path skipped", "bug", [(D, ADD, "    for path in paths {\n        if path.exists() {\n            builder.add(path);\n        }\n    }\n")]),
    ("paths ignored", "bug", [(D, ADD, "")]),
    ("visitor copies", "bug", [(D, "            files: vec![],\n            state: self.state,", "            files: vec![Ok(PathBuf::from(\".\"))],\n            state: self.state,")]),
    ("append only", "same", [(D, DROP, "        files.append(&mut self.files);")]),
    ("extend", "same", [(D, DROP, "        files.extend(std::mem::take(&mut self.files));")]),
    ("drain", "same", [(D, DROP, "        files.extend(self.files.drain(..));")]),
    ("loop", "same", [(D, DROP, "        for file in std::mem::take(&mut self.files) {\n            files.push(file);\n        }")]),
    ("nothing to do", "same", [(D, "        // Lock the global shared set", "        if self.files.is_empty() {\n            return;\n        }\n        // Lock the global shared set")]),
    ("helper", "same", [(D, ERR, "                return self.report(error);"), (D, "impl FilesVisitor<'_, '_> {\n", "impl FilesVisitor<'_, '_> {\n    fn report(&mut self, error: ignore::Error) -> ignore::WalkState {\n        self.files.push(Err(error));\n        ignore::WalkState::Continue\n    }\n\n")]),
    ("match on mode first", "same", [(D, "        let entry = match result {\n            Ok(entry) => entry,\n            Err(error) => {\n                // Store error but continue walking\n" + ERR + "\n            }\n        };\n\n        match self.state.mode {\n            Mode::Format => self.visit_format(entry),\n        }", "        match result {\n            Err(error) => {\n                self.files.push(Err(error));\n                ignore::WalkState::Continue\n            }\n            Ok(entry) => match self.state.mode {\n                Mode::Format => self.visit_format(entry),\n            },\n        }")]),
    ("finish inline", "same", [(D, "    state.finish()\n", "    let files = state.files.into_inner();\n    files.unwrap()\n"), (D, "\n    fn finish(self) -> DiscoveredFiles {\n" + FIN + "    }\n", "")]),
    ("swap", "same", [(D, DROP, "        let mut mine = std::mem::take(&mut self.files);\n        files.append(&mut mine);")]),
    ("for_each", "same", [(D, ADD, "    paths.iter().for_each(|path| {\n        builder.add(path);\n    });\n")]),
    ("iterator", "same", [(D, SPLIT, "    let mut paths = paths.iter();\n    let Some(first_path) = paths.next() else {")]),
    ("shared directly", "same", [(D, ERR, "                self.state.files.lock().unwrap().push(Err(error));\n                return ignore::WalkState::Continue;")]),
]
