T = "crates/workspace/src/toml.rs"
D = "crates/workspace/src/discovery.rs"
H = "crates/lsp/src/handlers.rs"
BODY = """    // Check for `air.toml` first, as we prioritize the "visible" one.
    let toml = path.as_ref().join("air.toml");
    if toml.is_file() {
        return Some(toml);
    }

    // Now check for `.air.toml` as well
    let toml = path.as_ref().join(".air.toml");
    if toml.is_file() {
        return Some(toml);
    }

    // Didn't find a configuration file
    None
"""
UP = """    for directory in path.as_ref().ancestors() {
        if let Some(toml) = find_air_toml_in_directory(directory) {
            return Some(toml);
        }
    }
    None
"""
IS = 'path.ends_with("air.toml") || path.ends_with(".air.toml")'
LOOP = """            let is_new_ancestor = seen.insert(ancestor);

            if !is_new_ancestor {
                // We already visited this ancestor, we can stop here.
                break;
            }

            if let Some(toml) = find_air_toml_in_directory(ancestor) {
                let settings = parse_settings(&toml, ancestor)?;
                discovered_settings.push(DiscoveredSettings {
                    directory: ancestor.to_path_buf(),
                    settings,
                });
                break;
            }
"""
CASES = [
    ("hidden first", "bug", [(T, BODY, BODY.replace('join("air.toml")', 'join("X")').replace('join(".air.toml")', 'join("air.toml")').replace('join("X")', 'join(".air.toml")'))]),
    ("exists", "bug", [(T, BODY, BODY.replace("is_file", "exists", 1))]),
    ("hidden dropped", "bug", [(T, BODY, BODY.replace('    let toml = path.as_ref().join(".air.toml");\n    if toml.is_file() {\n        return Some(toml);\n    }\n', ""))]),
    ("misnamed", "bug", [(T, BODY, BODY.replace('".air.toml"', '".air/air.toml"'))]),
    ("farthest", "bug", [(T, UP, "    path.as_ref().ancestors().filter_map(find_air_toml_in_directory).last()\n")]),
    ("skips own", "bug", [(T, UP, "    path.as_ref().ancestors().skip(1).find_map(find_air_toml_in_directory)\n")]),
    ("two levels", "bug", [(T, UP, "    path.as_ref().ancestors().take(16).find_map(find_air_toml_in_directory)\n")]),
    ("visible everywhere first", "bug", [(T, UP, '    let ancestors = || path.as_ref().ancestors();\n    ancestors()\n        .map(|x| x.join("air.toml"))\n        .find(|x| x.is_file())\n        .or_else(|| ancestors().map(|x| x.join(".air.toml")).find(|x| x.is_file()))\n')]),
    ("suffix", "bug", [(T, IS, 'path.to_string_lossy().ends_with("air.toml")')]),
    ("visible only", "bug", [(T, IS, 'path.ends_with("air.toml")')]),
    ("case", "bug", [(T, IS, 'path.file_name().and_then(|x| x.to_str()).is_some_and(|x| x.eq_ignore_ascii_case("air.toml") || x.eq_ignore_ascii_case(".air.toml"))')]),
    ("discover root", "bug", [(D, "parse_settings(&toml, ancestor)?", "parse_settings(&toml, path)?")]),
    ("discover directory", "bug", [(D, "directory: ancestor.to_path_buf()", "directory: path.to_path_buf()")]),
    ("discover relative", "bug", [(D, "paths.iter().map(fs::normalize_path).collect()", "paths.iter().map(|x| x.as_ref().to_path_buf()).collect()")]),
    ("discover parent", "bug", [(D, "for ancestor in path.ancestors() {", "for ancestor in path.ancestors().skip(1) {")]),
    ("discover outermost", "bug", [(D, LOOP, LOOP.replace("                });\n                break;", "                });"))]),
    ("discover git", "bug", [(D, LOOP, LOOP + '\n            if ancestor.join(".git").is_dir() {\n                break;\n            }\n')]),
    ("watch visible", "bug", [(H, '"**/.air.toml"', '"**/air.toml"')]),
    ("watch root", "bug", [(H, '"**/.air.toml"', '".air.toml"')]),
    ("array", "same", [(T, BODY, '    let path = path.as_ref();\n    for name in ["air.toml", ".air.toml"] {\n        let toml = path.join(name);\n        if toml.is_file() {\n            return Some(toml);\n        }\n    }\n    None\n')]),
    ("array find", "same", [(T, BODY, '    ["air.toml", ".air.toml"]\n        .into_iter()\n        .map(|name| path.as_ref().join(name))\n        .find(|toml| toml.is_file())\n')]),
    ("nested if", "same", [(T, BODY, '    let directory = path.as_ref();\n    let visible = directory.join("air.toml");\n    let hidden = directory.join(".air.toml");\n    if visible.is_file() {\n        Some(visible)\n    } else if hidden.is_file() {\n        Some(hidden)\n    } else {\n        None\n    }\n')]),
    ("then", "same", [(T, BODY, '    let candidate = |name: &str| {\n        let toml = path.as_ref().join(name);\n        toml.is_file().then_some(toml)\n    };\n    candidate("air.toml").or_else(|| candidate(".air.toml"))\n')]),
    ("find_map", "same", [(T, UP, "    path.as_ref().ancestors().find_map(find_air_toml_in_directory)\n")]),
    ("file name", "same", [(T, IS, 'path.file_name().is_some_and(|x| x == "air.toml" || x == ".air.toml")')]),
    ("file name match", "same", [(T, IS, 'matches!(path.file_name().and_then(|x| x.to_str()), Some("air.toml" | ".air.toml"))')]),
    ("names array", "same", [(T, IS, '["air.toml", ".air.toml"].iter().any(|name| path.ends_with(name))')]),
    ("discover unseen", "same", [(D, "            if !is_new_ancestor {\n                // We already visited this ancestor, we can stop here.\n                break;\n            }\n", "            if is_new_ancestor == false {\n                break;\n            }\n")]),
    ("discover let else", "same", [(D, LOOP, """            if !seen.insert(ancestor) {
                break;
            }

            let Some(toml) = find_air_toml_in_directory(ancestor) else {
                continue;
            };

            let directory = ancestor.to_path_buf();
            let settings = parse_settings(&toml, &directory)?;
            discovered_settings.push(DiscoveredSettings { directory, settings });
            break;
""")]),
    ("discover helper", "same", [(D, LOOP, """            if !seen.insert(ancestor) {
                break;
            }
            if let Some(found) = settings_in(ancestor)? {
                discovered_settings.push(found);
                break;
            }
"""), (D, "/// Parse [Settings] from", """fn settings_in(directory: &Path) -> anyhow::Result<Option<DiscoveredSettings>> {
    let Some(toml) = find_air_toml_in_directory(directory) else {
        return Ok(None);
    };
    let settings = parse_settings(&toml, directory)?;
    Ok(Some(DiscoveredSettings { directory: directory.to_path_buf(), settings }))
}

/// Parse [Settings] from""")]),
]
