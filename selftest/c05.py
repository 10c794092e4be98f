import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "_cli.py")).read())
D = "crates/workspace/src/discovery.rs"
E = "crates/lsp/src/file_patterns.rs"
L = "crates/lsp/src/handlers_format.rs"
NOTHING = "(discovery::Exclude::Nothing, discovery::Include::Everything)"
EX1 = """    if let Some(glob) = exclude.and_then(|exclude| exclude.matched(path, is_directory)) {
        return Some(glob);
    }
"""
PAR1 = "        exclude.and_then(|exclude| exclude.matched_path_or_any_parents(path, is_directory))\n"
PAR2 = "        .and_then(|default_exclude| default_exclude.matched_path_or_any_parents(path, is_directory))\n"
DIRECT = "                if is_directly_supplied\n                    && let Some(glob) = any_exclude_matched_path_or_any_parents("
FOUND = "                if !is_directly_supplied\n                    && let Some(glob) = any_exclude_matched_path("
EV = "            Include::Everything => {\n                tracing::trace!(\n                    \"Included due to including everything: {path}\",\n                    path = path.display()\n                );\n                self.files.push(Ok(entry.into_path()));"
ISDIR = "        let is_directory = entry.file_type().is_none_or(|ft| ft.is_dir());"
LSPEX = "            if is_document_excluded_from_formatting(&path, &settings.format, language_id) {\n                return Ok(None);\n            }\n"
STDEX = "            if let Some(glob) = workspace::discovery::any_exclude_matched_path_or_any_parents(\n                path,\n                IS_DIRECTORY,\n                settings.format.exclude.as_ref(),\n                settings.format.default_exclude.as_ref(),\n            ) {"
R_ID = "    if language_id == \"r\" {"
CASES = [c for c in SAME if c[0] not in ()] + [
    ("force keeps include", "bug", [(F, NOTHING, "(discovery::Exclude::Nothing, discovery::Include::Matched)")]),
    ("force keeps exclude", "bug", [(F, NOTHING, "(discovery::Exclude::Matched, discovery::Include::Everything)")]),
    ("check not filtered", "bug", [(F, "if command.force {", "if command.force || command.check {")]),
    ("force inverted for stdin", "bug", [(F, "Some(path) => stdin::format(path, mode, exclude, include)", "Some(path) => stdin::format(path, mode, discovery::Exclude::Matched, include)")]),
    ("user exclude hides defaults", "bug", [(D, PAR1 + "    {\n        return Some(glob);\n    }\n", PAR1 + "    {\n        return Some(glob);\n    }\n    if exclude.is_some() {\n        return None;\n    }\n")]),
    ("parents of defaults only", "bug", [(D, PAR1, "        exclude.and_then(|exclude| exclude.matched(path, is_directory))\n")]),
    ("parents of user only", "bug", [(D, PAR2, "        .and_then(|default_exclude| default_exclude.matched(path, is_directory))\n")]),
    ("never a directory", "bug", [(D, EX1, EX1.replace("is_directory", "false"))]),
    ("exclude ignored in walk", "bug", [(D, FOUND, "                if !is_directly_supplied\n                    && is_directory\n                    && let Some(glob) = any_exclude_matched_path(")]),
    ("parents only for files", "bug", [(D, DIRECT, "                if is_directly_supplied\n                    && !is_directory\n                    && let Some(glob) = any_exclude_matched_path_or_any_parents(")]),
    ("directly supplied without parents", "bug", [(D, DIRECT, "                if is_directly_supplied\n                    && let Some(glob) = any_exclude_matched_path(")]),
    ("depth one", "bug", [(D, "entry.depth() == 0", "entry.depth() == 1")]),
    ("directories reported", "bug", [(D, "            // Recurse into any directory that hasn't been excluded\n", "            self.files.push(Ok(entry.into_path()));\n")]),
    ("directories skipped", "bug", [(D, "            // Recurse into any directory that hasn't been excluded\n            return ignore::WalkState::Continue;", "            return ignore::WalkState::Skip;")]),
    ("direct files need no include", "bug", [(D, "        match self.state.include {\n            Include::Matched => {", "        match self.state.include {\n            Include::Matched if is_directly_supplied => {\n                self.files.push(Ok(entry.into_path()));\n                ignore::WalkState::Continue\n            }\n            Include::Matched => {")]),
    ("no settings no files", "bug", [(D, "        default_include.matched(path, IS_DIRECTORY))", "        default_include.matched_path_or_any_parents(path, IS_DIRECTORY))")] if False else [(D, "    default_include.and_then(|default_include| default_include.matched(path, IS_DIRECTORY))", "    default_include.and_then(|default_include| default_include.matched_path_or_any_parents(path, IS_DIRECTORY))")]),
    ("other settings", "bug", [(D, "        let settings = self.state.resolver.resolve_or_fallback(path);", "        let settings = self.state.resolver.resolve_or_fallback(path.parent().and_then(|p| p.parent()).unwrap_or(path));")]),
    ("excluded directory entered", "bug", [(D, "                    return ignore::WalkState::Skip;\n                }\n            }\n            Exclude::Nothing", "                    return ignore::WalkState::Continue;\n                }\n            }\n            Exclude::Nothing")]),
    ("stdin without default exclude", "bug", [(S, STDEX, STDEX.replace("settings.format.default_exclude.as_ref()", "None"))]),
    ("stdin no include", "bug", [(S, "                        \"Excluded due to not matching an include: {path}\",\n                        path = path.display()\n                    );\n                    false", "                        \"Excluded due to not matching an include: {path}\",\n                        path = path.display()\n                    );\n                    true")]),
    ("stdin check not filtered", "bug", [(S, "    if !is_stdin_formattable(path, settings, exclude, include) {\n        // Don't even attempt to read from stdin, we know nothing will change\n        return Ok(false);\n    }\n", "    let _ = (&path, &exclude, &include);\n")]),
    ("stdin as directory", "bug", [(S, "const IS_DIRECTORY: bool = false;", "const IS_DIRECTORY: bool = true;")]),
    ("editor include before exclude", "bug", [(E, "    // First check for explicit exclusions.", "    if language_id == \"r\" {\n        return false;\n    }\n    // First check for explicit exclusions.")]),
    ("editor other language", "bug", [(E, R_ID, "    if language_id != \"plaintext\" {")]),
    ("editor without parents", "bug", [(E, "    if let Some(glob) = workspace::discovery::any_exclude_matched_path_or_any_parents(\n        path,\n        IS_DIRECTORY,\n        exclude,\n        default_exclude,", "    if let Some(glob) = workspace::discovery::any_exclude_matched_path_or_any_parents(\n        path,\n        IS_DIRECTORY,\n        exclude,\n        exclude.and(default_exclude),")]),
    ("range not filtered", "bug", [(L, LSPEX, LSPEX), (L, "pub(crate) fn document_range_formatting(", "pub(crate) fn document_range_formatting(")] if False else [(L, "            let settings = workspace_settings.settings();\n\n" + LSPEX, "            let settings = workspace_settings.settings();\n            let _ = (&path, &settings, &language_id);\n")]),
    ("helper for exclude", "same", [(D, "    let path = path.as_ref();\n\n" + EX1, "    let path = path.as_ref();\n\n    let user = exclude.and_then(|exclude| exclude.matched(path, is_directory));\n    if user.is_some() {\n        return user;\n    }\n")]),
    ("or_else", "same", [(D, EX1 + """
    if let Some(glob) =
        default_exclude.and_then(|default_exclude| default_exclude.matched(path, is_directory))
    {
        return Some(glob);
    }

    None
""", """    exclude
        .and_then(|exclude| exclude.matched(path, is_directory))
        .or_else(|| default_exclude.and_then(|default| default.matched(path, is_directory)))
""")]),
    ("defaults first", "same", [(D, EX1 + """
    if let Some(glob) =
        default_exclude.and_then(|default_exclude| default_exclude.matched(path, is_directory))
    {
        return Some(glob);
    }

    None
""", """    if let Some(default) = default_exclude {
        if let Some(glob) = default.matched(path, is_directory) {
            return Some(glob);
        }
    }
    exclude?.matched(path, is_directory)
""")]),
    ("parents always", "same", [(D, "any_exclude_matched_path(\n                        path,\n                        is_directory,", "any_exclude_matched_path_or_any_parents(\n                        path,\n                        is_directory,")]),
    ("is_dir by match", "same", [(D, ISDIR, "        let is_directory = match entry.file_type() {\n            Some(file_type) => file_type.is_dir(),\n            None => true,\n        };")]),
    ("one exclusion branch", "same", [(D, """                if is_directly_supplied
                    && let Some(glob) = any_exclude_matched_path_or_any_parents(
                        path,
                        is_directory,
                        settings.format.exclude.as_ref(),
                        settings.format.default_exclude.as_ref(),
                    )
                {""", """                let format = &settings.format;
                let direct = if is_directly_supplied {
                    any_exclude_matched_path_or_any_parents(path, is_directory, format.exclude.as_ref(), format.default_exclude.as_ref())
                } else {
                    None
                };
                if let Some(glob) = direct {""")]),
    ("include first", "same", [(S, "    match exclude {\n        discovery::Exclude::Matched => {", "    match (exclude,) {\n        (discovery::Exclude::Matched,) => {"), (S, "        discovery::Exclude::Nothing => {\n            // Exclusion", "        (discovery::Exclude::Nothing,) => {\n            // Exclusion")]),
    ("editor language match", "same", [(E, R_ID, "    if matches!(language_id.as_str(), \"r\") {")]),
    ("editor inline", "same", [(L, LSPEX, "            let excluded = is_document_excluded_from_formatting(&path, &settings.format, language_id);\n            if excluded {\n                return Ok(None);\n            }\n")]),
    ("force match", "same", [(F, "    let (exclude, include) = if command.force {\n        (discovery::Exclude::Nothing, discovery::Include::Everything)\n    } else {\n        (discovery::Exclude::Matched, discovery::Include::Matched)\n    };", "    let exclude = match command.force {\n        true => discovery::Exclude::Nothing,\n        false => discovery::Exclude::Matched,\n    };\n    let include = match command.force {\n        true => discovery::Include::Everything,\n        false => discovery::Include::Matched,\n    };")]),
]
