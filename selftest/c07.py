F = "crates/workspace/src/resolve.rs"
PATHS = "crates/air/src/commands/format/paths.rs"
STDIN = "crates/air/src/commands/format/stdin.rs"
RESOLVE = """        self.items
            .iter()
            .rev()
            .find(|item| path.starts_with(item.path()))"""
ADDB = """        match self.items.binary_search_by(|item| item.path.cmp(&path)) {
            Ok(index) => {
                // `path` already exists! Swap underlying `value` for the new one, return the old one.
                let item = &mut self.items[index];
                let value = std::mem::replace(&mut item.value, value);
                Some(value)
            }
            Err(index) => {
                // `path` is new! Insert new `PathItem` at sorted index to retain overall
                // ordering.
                let item = PathItem { path, value };
                self.items.insert(index, item);
                None
            }
        }"""
CASES = [
    ("no-rev", "bug", [(F, RESOLVE, RESOLVE.replace("            .rev()\n", ""))]),
    ("string prefix", "bug", [(F, RESOLVE, RESOLVE.replace("path.starts_with(item.path())", "path.to_string_lossy().starts_with(&*item.path().to_string_lossy())"))]),
    ("flipped prefix", "bug", [(F, RESOLVE, RESOLVE.replace("path.starts_with(item.path())", "item.path().starts_with(path)"))]),
    ("equal path excluded", "bug", [(F, RESOLVE, RESOLVE.replace("path.starts_with(item.path())", "path != item.path() && path.starts_with(item.path())"))]),
    ("parent only", "bug", [(F, RESOLVE, RESOLVE.replace("path.starts_with(item.path())", "path.parent().is_some_and(|p| p.starts_with(item.path()))"))]),
    ("skip one", "bug", [(F, RESOLVE, RESOLVE.replace(".rev()", ".rev().skip(1)"))]),
    ("take few", "bug", [(F, RESOLVE, RESOLVE.replace(".rev()", ".rev().take(8)"))]),
    ("insert after", "bug", [(F, "self.items.insert(index, item);", "self.items.insert(self.items.len().min(index + 1), item);")]),
    ("push", "bug", [(F, "self.items.insert(index, item);", "let _ = index; self.items.push(item);")]),
    ("keep old", "bug", [(F, "let value = std::mem::replace(&mut item.value, value);\n                Some(value)", "let _ = item; Some(value)")]),
    ("cmp len", "bug", [(F, "|item| item.path.cmp(&path)", "|item| item.path.as_os_str().len().cmp(&path.as_os_str().len())")]),
    ("reversed cmp", "bug", [(F, "|item| item.path.cmp(&path)", "|item| path.cmp(&item.path)")]),
    ("swap_remove", "bug", [(F, "let item = self.items.remove(index);", "let item = self.items.swap_remove(index);")]),
    ("remove descendants", "bug", [(F, "let item = self.items.remove(index);", "let item = self.items.remove(index);\n                self.items.retain(|i| !i.path.starts_with(path));")]),
    ("fallback over value", "bug", [(F, ".map_or_else(|| self.fallback(), |item| item.value())", ".map_or_else(|| self.fallback(), |item| if self.items.len() == 1 { self.fallback() } else { item.value() })")]),
    ("matches strict", "bug", [(F, ".filter(move |item| path.starts_with(item.path()))", ".filter(move |item| path.starts_with(item.path()) && path != item.path())")]),
    ("loop", "same", [(F, RESOLVE, """        for item in self.items.iter().rev() {
            if path.starts_with(&item.path) {
                return Some(item);
            }
        }
        None""")]),
    ("index loop", "same", [(F, RESOLVE, """        let mut i = self.items.len();
        while i > 0 {
            i -= 1;
            let item = &self.items[i];
            if path.starts_with(&item.path) {
                return Some(item);
            }
        }
        None""")]),
    ("rfind", "same", [(F, RESOLVE, "        self.items.iter().rfind(|item| path.starts_with(item.path()))")]),
    ("filter last", "same", [(F, RESOLVE, "        self.items.iter().filter(|item| path.starts_with(item.path())).last()")]),
    ("rposition", "same", [(F, RESOLVE, "        self.items.iter().rposition(|item| path.starts_with(item.path())).map(|i| &self.items[i])")]),
    ("helper", "same", [(F, RESOLVE, "        self.closest(path)"), (F, "    /// Convenience method when", """    fn closest(&self, query: &Path) -> Option<&PathItem<T>> {
        self.items.iter().rev().find(|entry| Self::covers(entry, query))
    }
    fn covers(entry: &PathItem<T>, query: &Path) -> bool {
        query.starts_with(&entry.path)
    }
    /// Convenience method when""")]),
    ("fallback match", "same", [(F, """        self.resolve(path)
            .map_or_else(|| self.fallback(), |item| item.value())""", """        match self.resolve(path.as_ref()) {
            Some(item) => &item.value,
            None => &self.fallback,
        }""")]),
    ("early return", "same", [(F, RESOLVE, "        if self.items.is_empty() { return None; }\n" + RESOLVE)]),
    ("shared search", "same", [(F, "self.items.binary_search_by(|item| item.path.cmp(&path))", "self.position(&path)"),
        (F, """match self
            .items
            .binary_search_by(|item| item.path.as_path().cmp(path))""", "match self.position(path)"),
        (F, "    pub fn items(&self)", "    fn position(&self, path: &Path) -> Result<usize, usize> {\n        self.items.binary_search_by(|item| item.path.as_path().cmp(path))\n    }\n\n    pub fn items(&self)")]),
    ("by_key", "same", [(F, "self.items.binary_search_by(|item| item.path.cmp(&path))", "self.items.binary_search_by_key(&path.as_path(), |item| item.path.as_path())")]),
    ("if let", "same", [(F, ADDB, """        let position = self.items.binary_search_by(|item| item.path.cmp(&path));
        if let Ok(index) = position {
            let old = std::mem::replace(&mut self.items[index].value, value);
            return Some(old);
        }
        let index = position.unwrap_err();
        self.items.insert(index, PathItem { path, value });
        None""")]),
    ("replace item", "same", [(F, """                let item = &mut self.items[index];
                let value = std::mem::replace(&mut item.value, value);
                Some(value)""", """                let old = std::mem::replace(&mut self.items[index], PathItem { path, value });
                Some(old.value)""")]),
    ("remove ok map", "same", [(F, """        match self
            .items
            .binary_search_by(|item| item.path.as_path().cmp(path))
        {
            Ok(index) => {
                // `path` exists! Remove it and return value.
                let item = self.items.remove(index);
                Some(item.value)
            }
            Err(_) => {
                // `path` does not exist!
                None
            }
        }""", """        self.items
            .binary_search_by(|item| item.path.as_path().cmp(path))
            .ok()
            .map(|index| self.items.remove(index).value)""")]),
    ("partition_point", "same", [(F, ADDB, """        let index = self.items.partition_point(|item| item.path < path);
        if index < self.items.len() && self.items[index].path == path {
            return Some(std::mem::replace(&mut self.items[index].value, value));
        }
        self.items.insert(index, PathItem { path, value });
        None""")]),
    ("paths default settings", "bug", [(PATHS, "let settings = resolver.resolve_or_fallback(&path);\n                match format_path(&path, &settings.format) {\n                    Ok(formatted)", "let settings = &Settings::default();\n                match format_path(&path, &settings.format) {\n                    Ok(formatted)")]),
    ("paths settings of parent", "bug", [(PATHS, "let settings = resolver.resolve_or_fallback(&path);\n                match format_path(&path, &settings.format) {\n                    Ok(file)", "let settings = resolver.resolve_or_fallback(path.parent().and_then(Path::parent).unwrap_or(&path));\n                match format_path(&path, &settings.format) {\n                    Ok(file)")]),
    ("paths only first discovered", "bug", [(PATHS, "in discover_settings(&paths)?", "in discover_settings(&paths[..1])?")]),
    ("paths some registered", "bug", [(PATHS, "        resolver.add(&directory, settings);", "        if paths.len() < 2 || !directory.is_relative() {\n            resolver.add(&directory, settings);\n        }")]),
    ("paths parent registered", "bug", [(PATHS, "resolver.add(&directory, settings);", "resolver.add(directory.parent().unwrap_or(&directory), settings);")]),
    ("stdin not registered", "bug", [(STDIN, "        resolver.add(&directory, settings);", "        let _ = (&directory, settings, &mut resolver);")]),
    ("stdin default settings", "bug", [(STDIN, "format_stdin(&settings.format)?\n    } else", "format_stdin(&FormatSettings::default())?\n    } else")]),
    ("stdin fallback", "bug", [(STDIN, "let settings = resolver.resolve_or_fallback(&path);\n\n    if !is_stdin", "let settings = resolver.fallback();\n\n    if !is_stdin")]),
    ("stdin for_each", "same", [(STDIN, """    for DiscoveredSettings {
        directory,
        settings,
    } in discover_settings(&[&path])?
    {
        resolver.add(&directory, settings);
    }
""", """    let discovered = discover_settings(&[&path])?;
    for item in discovered {
        let _ = resolver.add(item.directory.as_path(), item.settings);
    }
""")]),
    ("paths options inline", "same", [(PATHS, "                match format_path(&path, &settings.format) {\n                    Ok(file)", "                let format = &settings.format;\n                match format_path(&path, format) {\n                    Ok(file)")]),
    ("paths resolver fn", "same", [(PATHS, """    let mut resolver = PathResolver::new(Settings::default());

    for DiscoveredSettings {
        directory,
        settings,
    } in discover_settings(&paths)?
    {
        resolver.add(&directory, settings);
    }
""", "    let resolver = build_resolver(&paths)?;\n"), (PATHS, "fn inform_changed(", """fn build_resolver(paths: &[PathBuf]) -> anyhow::Result<PathResolver<Settings>> {
    let mut resolver = PathResolver::new(Settings::default());
    for found in discover_settings(paths)? {
        resolver.add(&found.directory, found.settings);
    }
    Ok(resolver)
}

fn inform_changed(""")]),
]
