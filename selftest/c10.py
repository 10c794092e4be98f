T = "crates/workspace/src/toml_options.rs"
S = "crates/workspace/src/settings.rs"
D = "docs/configuration.qmd"
LW = "crates/settings/src/line_width.rs"
IS = "crates/settings/src/indent_style.rs"
TN = "crates/workspace/src/settings/default_table.rs"
P = "crates/air/src/commands/format/paths.rs"
W = "crates/lsp/src/workspaces.rs"
FMT = "let format = self.format.unwrap_or_default();"
CASES = [
    ("default width", "bug", [(LW, "DEFAULT: u16 = 80", "DEFAULT: u16 = 100")]),
    ("default style", "bug", [(T, "indent_style: format.indent_style.unwrap_or_default()", "indent_style: format.indent_style.unwrap_or(IndentStyle::Tab)")]),
    ("documentation", "bug", [(D, "with a default of 2", "with a default of 4")]),
    ("default exclude none", "bug", [(S, "default_exclude: Some(Default::default())", "default_exclude: Default::default()")]),
    ("default table none", "bug", [(S, "table: Some(DEFAULT_TABLE.clone())", "table: Default::default()")]),
    ("default table more", "bug", [(TN, '&["tribble", "fcase"]', '&["tribble", "fcase", "case_when"]')]),
    ("empty section", "bug", [(T, "match format.default_exclude.unwrap_or(true)", "match format.default_exclude.unwrap_or_default()")]),
    ("empty section table", "bug", [(T, "if format.default_table.unwrap_or(true) {", "if format.default_table.unwrap_or(format.table.is_some()) {")]),
    ("no section", "bug", [(T, FMT, "let configured = self.format.is_some();\n" + FMT), (T, "None => PersistentLineBreaks::Respect", "None if configured => PersistentLineBreaks::Respect, None => PersistentLineBreaks::Ignore")]),

    ("early default", "same", [(T, FMT, "let Some(format) = self.format else {\n            return Ok(Settings::default());\n        };")]),
    ("default order", "same", [(S, "            exclude: Default::default(),\n            default_exclude: Some(Default::default()),", "            default_exclude: Some(DefaultExcludePatterns::default()),\n            exclude: None,")]),
    ("fallback let", "same", [(P, "PathResolver::new(Settings::default())", "{ let fallback = Settings::default(); PathResolver::new(fallback) }")]),
    ("fallback helper", "same", [(P, "PathResolver::new(Settings::default())", "PathResolver::new(fallback())"), (P, "\nfn ", "\nfn fallback() -> Settings {\n    Settings::default()\n}\n\nfn ")]),
]
