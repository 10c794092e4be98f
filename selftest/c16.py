X = "crates/workspace/src/settings/default_exclude_patterns.rs"
I = "crates/workspace/src/settings/default_include_patterns.rs"
CASES = [
    ("no dir slash", "bug", [(X, '"**/revdep/"', '"**/revdep"')]),
    ("dropped", "bug", [(X, '    "**/extendr-wrappers.R",\n', "")]),
    ("anchored", "bug", [(X, '"**/cpp11.R"', '"**/R/cpp11.R"')]),
    ("star", "bug", [(X, "import-standalone-*.R", "import-standalone-?*.R")]),
    ("extra", "bug", [(X, '    "**/cpp11.R",', '    "**/cpp11.R",\n    "**/packrat/",')]),
    ("case class", "bug", [(X, '"**/cpp11.R"', '"**/[Cc]pp11.R"')]),
    ("reordered", "same", [(X, '    "**/renv/",\n    "**/revdep/",', '    "**/revdep/",\n    "**/renv/",')]),
    ("alternates", "same", [(X, '    "**/cpp11.R",\n    "**/RcppExports.R",', '    "**/{cpp11,RcppExports}.R",')]),
    ("include split", "same", [(I, '"**/*.[Rr]"', '"**/*.R",\n    "**/*.r"')]),
    ("include alt", "same", [(I, '"**/*.[Rr]"', '"**/*.{R,r}"')]),
    ("include q", "bug", [(I, '"**/*.[Rr]"', '"**/*.[Rr]*"')]),
    ("include old", "bug", [(I, '"**/*.[Rr]"', '"**/*.[R,r]"')]),
    ("include upper", "bug", [(I, '"**/*.[Rr]"', '"**/*.R"')]),
    ("include range", "bug", [(I, '"**/*.[Rr]"', '"**/*.[R-r]"')]),
    ("wrong static", "bug", [(I, 'DEFAULT_INCLUDE_PATTERN_NAMES.iter().copied()', 'DEFAULT_INCLUDE_PATTERN_NAMES.iter().skip(1).copied()')]),
    ("ex skip", "bug", [(X, 'DEFAULT_EXCLUDE_PATTERN_NAMES.iter().copied()', 'DEFAULT_EXCLUDE_PATTERN_NAMES.iter().skip(1).copied()')]),
    ("to_vec", "same", [(X, 'DEFAULT_EXCLUDE_PATTERN_NAMES.iter().copied()', 'DEFAULT_EXCLUDE_PATTERN_NAMES.to_vec()')]),
    ("map", "same", [(X, 'DEFAULT_EXCLUDE_PATTERN_NAMES.iter().copied()', 'DEFAULT_EXCLUDE_PATTERN_NAMES.iter().map(|name| *name)')]),
    ("const list", "same", [(X, "static DEFAULT_EXCLUDE_PATTERN_NAMES: &[&str] = &[", "const DEFAULT_EXCLUDE_PATTERN_NAMES: [&str; 7] = [")]),
    ("helper", "same", [(I, "impl Deref for", "fn include_patterns() -> &'static DefaultFilePatterns {\n    &DEFAULT_INCLUDE_PATTERNS\n}\n\nimpl Deref for"), (I, "Self(&DEFAULT_INCLUDE_PATTERNS)", "Self(include_patterns())")]),
]
