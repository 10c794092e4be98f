F = "crates/workspace/src/file_patterns.rs"
T = "crates/workspace/src/toml_options.rs"
E = "crates/workspace/src/settings/exclude_patterns.rs"
LOOP = """        let mut builder = GitignoreBuilder::new(root);

        for pattern in patterns {
            builder.add_line(None, pattern)?;
        }
"""
MATCH = """        match self.matcher.matched(path, is_directory) {
            Match::None => None,
            Match::Whitelist(_) => None,
            Match::Ignore(glob) => Some(glob),
        }
"""
PM = """        match self.matcher.matched_path_or_any_parents(path, is_directory) {
            Match::None => None,
            Match::Whitelist(_) => None,
            Match::Ignore(glob) => Some(glob),
        }
"""
WALK = """        let mut path = path.as_ref();

        match self.matched(path, is_directory) {
            None => (), // walk up
            a_match => return a_match,
        }
        while let Some(parent) = path.parent() {
            match self.matched(parent, /* is_directory */ true) {
                None => path = parent, // walk up
                a_match => return a_match,
            }
        }

        None
"""
CASES = [
    ("whitelist ignored", "bug", [(F, MATCH, MATCH.replace("Match::Whitelist(_) => None", "Match::Whitelist(glob) => Some(glob)"))]),
    ("whitelist parents", "bug", [(F, PM, PM.replace("Match::Whitelist(_) => None", "Match::Whitelist(glob) => Some(glob)"))]),
    ("inner", "bug", [(F, MATCH, "        self.matcher.matched(path, is_directory).inner().copied()\n")]),
    ("is_ignore then inner", "same", [(F, MATCH, "        let m = self.matcher.matched(path, is_directory);\n        if m.is_ignore() { m.inner().copied() } else { None }\n")]),
    ("if let", "same", [(F, MATCH, "        if let Match::Ignore(glob) = self.matcher.matched(path, is_directory) {\n            Some(glob)\n        } else {\n            None\n        }\n")]),
    ("wildcard", "same", [(F, PM, PM.replace("            Match::None => None,\n            Match::Whitelist(_) => None,\n            Match::Ignore(glob) => Some(glob),\n", "            Match::Ignore(glob) => Some(glob),\n            _ => None,\n"))]),
    ("parents via matched", "bug", [(F, PM, PM.replace("matched_path_or_any_parents", "matched"))]),
    ("dir flag true", "bug", [(F, MATCH, MATCH.replace("is_directory", "true"))]),
    ("rev", "bug", [(F, LOOP, LOOP.replace("for pattern in patterns {", "for pattern in patterns.into_iter().collect::<Vec<_>>().into_iter().rev() {"))]),
    ("skip star", "bug", [(F, LOOP, LOOP.replace("            builder", "            if pattern.contains('!') {\n                continue;\n            }\n            builder"))]),
    ("skip blank", "same", [(F, LOOP, LOOP.replace("            builder", "            if pattern.is_empty() {\n                continue;\n            }\n            builder"))]),
    ("trim", "bug", [(F, LOOP, LOOP.replace("None, pattern", "None, pattern.trim_end_matches('/')"))]),
    ("swallow", "bug", [(F, LOOP, LOOP.replace("builder.add_line(None, pattern)?;", "let _ = builder.add_line(None, pattern);"))]),
    ("swallow log", "bug", [(F, LOOP, LOOP.replace("builder.add_line(None, pattern)?;", "if builder.add_line(None, pattern).is_err() {\n                continue;\n            }"))]),
    ("break on invalid", "bug", [(F, LOOP, LOOP.replace("builder.add_line(None, pattern)?;", "if builder.add_line(None, pattern).is_err() {\n                break;\n            }"))]),
    ("case", "bug", [(F, LOOP, LOOP.replace("        for", "        builder.case_insensitive(true)?;\n        for"))]),
    ("root", "bug", [(F, LOOP, LOOP.replace("::new(root)", "::new(\"\")"))]),
    ("take", "bug", [(F, LOOP, LOOP.replace("in patterns {", "in patterns.into_iter().take(64) {"))]),
    ("try_for_each", "same", [(F, LOOP, "        let mut builder = GitignoreBuilder::new(root);\n        patterns.into_iter().try_for_each(|pattern| builder.add_line(None, pattern).map(|_| ()))?;\n")]),
    ("match err", "same", [(F, LOOP, LOOP.replace("builder.add_line(None, pattern)?;", "if let Err(error) = builder.add_line(None, pattern) {\n                return Err(error.into());\n            }"))]),
    ("helper", "same", [(F, LOOP, "        let mut builder = GitignoreBuilder::new(root);\n        add_all(&mut builder, patterns)?;\n"), (F, "impl FilePatterns {", "fn add_all<'str, I>(builder: &mut GitignoreBuilder, patterns: I) -> anyhow::Result<()>\nwhere\n    I: IntoIterator<Item = &'str str>,\n{\n    for pattern in patterns {\n        builder.add_line(None, pattern)?;\n    }\n    Ok(())\n}\n\nimpl FilePatterns {")]),
    ("while let", "same", [(F, LOOP, LOOP.replace("for pattern in patterns {", "let mut patterns = patterns.into_iter();\n        while let Some(pattern) = patterns.next() {"))]),
    ("walk ancestors", "same", [(F, WALK, "        let path = path.as_ref();\n        if let Some(glob) = self.matched(path, is_directory) {\n            return Some(glob);\n        }\n        path.ancestors()\n            .skip(1)\n            .find_map(|parent| self.matched(parent, true))\n")]),
    ("walk or_else", "same", [(F, WALK, "        let path = path.as_ref();\n        self.matched(path, is_directory).or_else(|| {\n            path.ancestors()\n                .skip(1)\n                .find_map(|parent| self.matched(parent, true))\n        })\n")]),
    ("walk flag", "bug", [(F, WALK, WALK.replace("/* is_directory */ true", "is_directory"))]),
    ("walk one", "bug", [(F, WALK, WALK.replace("while let Some(parent) = path.parent() {\n            match self.matched(parent, /* is_directory */ true) {\n                None => path = parent, // walk up\n                a_match => return a_match,\n            }\n        }", "if let Some(parent) = path.parent() {\n            return self.matched(parent, true);\n        }"))]),
    ("walk two", "bug", [(F, WALK, "        let path = path.as_ref();\n        if let Some(glob) = self.matched(path, is_directory) {\n            return Some(glob);\n        }\n        path.ancestors()\n            .skip(2)\n            .find_map(|parent| self.matched(parent, true))\n")]),
    ("walk include self", "bug", [(F, WALK, "        let path = path.as_ref();\n        path.ancestors()\n            .find_map(|parent| self.matched(parent, true))\n")]),
    ("walk none", "bug", [(F, WALK, "        self.matched(path, is_directory)\n")]),
    ("walk loop", "same", [(F, WALK, WALK.replace("""        while let Some(parent) = path.parent() {
            match self.matched(parent, /* is_directory */ true) {
                None => path = parent, // walk up
                a_match => return a_match,
            }
        }

        None
""", """        loop {
            let Some(parent) = path.parent() else {
                return None;
            };
            if let Some(glob) = self.matched(parent, true) {
                return Some(glob);
            }
            path = parent;
        }
"""))]),
    ("walk for", "same", [(F, WALK, "        let path = path.as_ref();\n        let own = self.matched(path, is_directory);\n        if own.is_some() {\n            return own;\n        }\n        for parent in path.ancestors().skip(1) {\n            let glob = self.matched(parent, true);\n            if glob.is_some() {\n                return glob;\n            }\n        }\n        None\n")]),
    ("settings root", "bug", [(T, "Some(ExcludePatterns::try_from_iter(root, exclude)?)", 'Some(ExcludePatterns::try_from_iter(root.parent().unwrap_or(root), exclude)?)')]),
    ("settings filter", "bug", [(T, "let exclude = exclude.iter().map(String::as_str);", "let exclude = exclude.iter().map(String::as_str).filter(|x| !x.starts_with('!'));")]),
    ("settings trim", "bug", [(T, "let exclude = exclude.iter().map(String::as_str);", "let exclude = exclude.iter().map(|x| x.trim_start_matches('/'));")]),
    ("settings skip", "bug", [(T, "let exclude = exclude.iter().map(String::as_str);", "let exclude = exclude.iter().skip(1).map(String::as_str);")]),
    ("settings closure", "same", [(T, "let exclude = exclude.iter().map(String::as_str);", "let exclude = exclude.iter().map(|pattern| pattern.as_str());")]),
    ("settings map transpose", "same", [(T, """            exclude: match format.exclude {
                Some(exclude) => {
                    let exclude = exclude.iter().map(String::as_str);
                    Some(ExcludePatterns::try_from_iter(root, exclude)?)
                }
                None => None,
            },""", """            exclude: format
                .exclude
                .map(|exclude| ExcludePatterns::try_from_iter(root, exclude.iter().map(String::as_str)))
                .transpose()?,""")]),
    ("wrapper drops", "bug", [(E, "FilePatterns::try_from_iter(root, patterns)?", "FilePatterns::try_from_iter(root, patterns.into_iter().skip(1))?")]),
    ("wrapper root", "bug", [(E, "FilePatterns::try_from_iter(root, patterns)?", "FilePatterns::try_from_iter(\"\", patterns)?"),]),
    ("wrapper map", "same", [(E, "Ok(Self(FilePatterns::try_from_iter(root, patterns)?))", "FilePatterns::try_from_iter(root, patterns).map(Self)")]),
    ("build match", "same", [(F, "        Ok(Self {\n            matcher: builder.build()?,\n        })", "        let matcher = builder.build()?;\n        Ok(Self { matcher })")]),
    ("build default", "bug", [(F, "            matcher: builder.build()?,", "            matcher: builder.build().unwrap_or_else(|_| Gitignore::empty()),")]),
]
