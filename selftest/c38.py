F = "crates/fs/src/lib.rs"
HAS = """    path.extension()
        .and_then(OsStr::to_str)
        .is_some_and(is_r_extension)"""
REL = """    if let Ok(path) = path.strip_prefix(cwd) {
        return format!("{}", path.display());
    }
    format!("{}", path.display())"""
NORM = """    if let Ok(path) = path.absolutize() {
        path.to_path_buf()
    } else {
        path.to_path_buf()
    }"""
CASES = [
    ("Rmd", "bug", [(F, '"r" | "R"', '"r" | "R" | "Rmd"')]),
    ("only R", "bug", [(F, '"r" | "R"', '"R"')]),
    ("ends_with", "bug", [(F, HAS, '    path.to_str().is_some_and(|p| p.ends_with(".R") || p.ends_with(".r"))')]),
    ("starts_with2", "bug", [(F, 'matches!(extension, "r" | "R")', "extension.starts_with(['r', 'R'])")]),
    ("contains", "bug", [(F, 'matches!(extension, "r" | "R")', '"rR".contains(extension)')]),
    ("trim", "bug", [(F, 'matches!(extension, "r" | "R")', 'matches!(extension.trim(), "r" | "R")')]),
    ("no extension ok", "bug", [(F, HAS, "    path.extension().map_or(true, |e| e.to_str().is_some_and(is_r_extension))")]),
    ("file_name split", "bug", [(F, HAS, "    path.file_name().and_then(OsStr::to_str).and_then(|n| n.split_once('.')).is_some_and(|(_, e)| is_r_extension(e))")]),
    ("rel file name", "bug", [(F, REL, REL.replace('return format!("{}", path.display());', 'return format!("{}", path.file_name().map_or(path, Path::new).display());'))]),
    ("rel parent", "bug", [(F, "path.strip_prefix(cwd)", "path.strip_prefix(cwd.parent().unwrap_or(cwd))")]),
    ("norm drops", "bug", [(F, NORM, NORM.replace("        path.to_path_buf()\n    } else", "        let _ = path; PathBuf::from(\".\")\n    } else"))]),
    ("norm cond", "bug", [(F, "    if let Ok(path) = path.absolutize() {", "    if path.starts_with(\"..\") { return path.to_path_buf(); }\n    if let Ok(path) = path.absolutize() {")]),
    ("eq_ignore", "same", [(F, 'matches!(extension, "r" | "R")', 'extension.eq_ignore_ascii_case("r")')]),
    ("osstr", "same", [(F, HAS, '    match path.extension() {\n        Some(e) => e == "R" || e == "r",\n        None => false,\n    }')]),
    ("file_name rsplit", "same", [(F, HAS, "    path.file_name().and_then(OsStr::to_str).and_then(|n| n.rsplit_once('.')).is_some_and(|(stem, e)| !stem.is_empty() && is_r_extension(e))")]),
    ("lower", "same", [(F, 'matches!(extension, "r" | "R")', 'extension.to_ascii_lowercase() == "r"')]),
    ("let else", "same", [(F, HAS, "    let Some(extension) = path.extension() else {\n        return false;\n    };\n    let Some(extension) = extension.to_str() else {\n        return false;\n    };\n    is_r_extension(extension)")]),
    ("rel unwrap_or", "same", [(F, REL, '    path.strip_prefix(cwd).unwrap_or(path).display().to_string()')]),
    ("norm map", "same", [(F, NORM, "    path.absolutize().map(|p| p.into_owned()).unwrap_or_else(|_| path.to_path_buf())")]),
    ("norm match", "same", [(F, NORM, "    match path.absolutize() {\n        Ok(absolute) => absolute.into_owned(),\n        Err(_) => PathBuf::from(path),\n    }")]),
    ("const list", "same", [(F, 'matches!(extension, "r" | "R")', 'const EXTENSIONS: &[&str] = &["r", "R"];\n    EXTENSIONS.contains(&extension)')]),
]
