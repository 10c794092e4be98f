T = "crates/workspace/src/toml_options.rs"
S = "crates/workspace/src/settings.rs"
C = "crates/air_r_formatter/src/context.rs"
L = "crates/air_r_formatter/src/lib.rs"
W = "crates/workspace/src/format.rs"
FMT = "let format = self.format.unwrap_or_default();"
TAB = """        let table = if format.default_table.unwrap_or(true) {
            Some(match format.table {
                Some(table) => table.merge(&DEFAULT_TABLE),
                None => DEFAULT_TABLE.clone(),
            })
        } else {
            format.table
        };
"""
EXC = """            exclude: match format.exclude {
                Some(exclude) => {
                    let exclude = exclude.iter().map(String::as_str);
                    Some(ExcludePatterns::try_from_iter(root, exclude)?)
                }
                None => None,
            },
"""
DEX = """            default_exclude: match format.default_exclude.unwrap_or(true) {
                true => Some(DefaultExcludePatterns::default()),
                false => None,
            },
"""
PLB = """            persistent_line_breaks: match format.persistent_line_breaks {
                Some(persistent_line_breaks) => {
                    if persistent_line_breaks {
                        PersistentLineBreaks::Respect
                    } else {
                        PersistentLineBreaks::Ignore
                    }
                }
                None => PersistentLineBreaks::Respect,
            },
"""
CASES = [
    ("dropped width", "bug", [(T, "indent_width: format.indent_width.unwrap_or_default()", "indent_width: IndentWidth::default()")]),
    ("width only with spaces", "bug", [(T, "indent_width: format.indent_width.unwrap_or_default()", "indent_width: match format.indent_style { Some(IndentStyle::Tab) => IndentWidth::default(), _ => format.indent_width.unwrap_or_default() }")]),
    ("ending default", "bug", [(T, "line_ending: format.line_ending.unwrap_or_default()", "line_ending: format.line_ending.filter(|_| format.line_width.is_none()).unwrap_or_default()")]),
    ("persistent inverted", "bug", [(T, "if persistent_line_breaks {", "if !persistent_line_breaks {")]),
    ("persistent default", "bug", [(T, "None => PersistentLineBreaks::Respect", "None => PersistentLineBreaks::Ignore")]),
    ("default exclude from table", "bug", [(T, "match format.default_exclude.unwrap_or(true)", "match format.default_exclude.or(format.default_table).unwrap_or(true)")]),
    ("default exclude off with exclude", "bug", [(T, "match format.default_exclude.unwrap_or(true)", "match format.default_exclude.unwrap_or(excluding)"), (T, FMT, FMT + "\n        let excluding = format.exclude.is_none();")]),
    ("table not merged", "bug", [(T, "Some(table) => table.merge(&DEFAULT_TABLE)", "Some(table) => table")]),
    ("table off", "bug", [(T, "        } else {\n            format.table\n", "        } else {\n            None\n")]),
    ("skip empty lost", "bug", [(T, "skip: format.skip,", "skip: format.skip.filter(|_| format.assignment_style.is_none()),")]),
    ("exclude filtered", "bug", [(T, "exclude.iter().map(String::as_str);", "exclude.iter().map(String::as_str).filter(|x| !x.starts_with('!'));")]),
    ("exclude cwd", "bug", [(T, "ExcludePatterns::try_from_iter(root, exclude)", "ExcludePatterns::try_from_iter(std::path::Path::new(\".\"), exclude)")]),
    ("option forgotten", "bug", [(S, "            .with_persistent_line_breaks(self.persistent_line_breaks)\n", "")]),
    ("setter swapped", "bug", [(C, "        self.skip = skip;\n        self\n", "        self.table = skip.map(|_| Default::default());\n        self\n")]),
    ("setter first only", "bug", [(C, "        self.line_width = line_width;\n        self\n", "        if self.line_width == LineWidth::default() { self.line_width = line_width; self.indent_width = Default::default(); }\n        self\n")]),
    ("getter other", "bug", [(C, "        self.skip.as_ref()", "        if self.table.is_some() { self.skip.as_ref() } else { None }")]),
    ("getter const", "bug", [(C, "fn indent_width(&self) -> biome_formatter::IndentWidth {\n        self.indent_width.into()", "fn indent_width(&self) -> biome_formatter::IndentWidth {\n        Default::default()")]),
    ("key renamed", "bug", [(T, "    pub indent_width: Option<IndentWidth>", "    #[serde(rename = \"tab-width\")]\n    pub indent_width: Option<IndentWidth>")]),
    ("key swapped", "bug", [(T, "    pub default_exclude: Option<bool>", "    #[serde(rename = \"default-table\")]\n    pub default_exclude: Option<bool>"), (T, "    pub default_table: Option<bool>", "    #[serde(rename = \"default-exclude\")]\n    pub default_table: Option<bool>")]),
    ("unwrap match", "same", [(T, "indent_width: format.indent_width.unwrap_or_default()", "indent_width: match format.indent_width { Some(x) => x, None => IndentWidth::default() }")]),
    ("persistent map", "same", [(T, PLB, "            persistent_line_breaks: persistent(format.persistent_line_breaks),\n"), (T, "#[derive", "fn persistent(x: Option<bool>) -> PersistentLineBreaks {\n    if x.unwrap_or(true) {\n        PersistentLineBreaks::Respect\n    } else {\n        PersistentLineBreaks::Ignore\n    }\n}\n\n#[derive")]),
    ("persistent match", "same", [(T, PLB, "            persistent_line_breaks: match format.persistent_line_breaks {\n Some(false) => PersistentLineBreaks::Ignore,\n _ => PersistentLineBreaks::Respect,\n },\n")]),
    ("exclude let", "same", [(T, EXC, "            exclude,\n"), (T, FMT, FMT + "\n        let exclude = if let Some(exclude) = &format.exclude {\n            Some(ExcludePatterns::try_from_iter(root, exclude.iter().map(String::as_str))?)\n        } else {\n            None\n        };")]),
    ("exclude transpose", "same", [(T, EXC, "            exclude,\n"), (T, FMT, FMT + "\n        let exclude = format.exclude.as_ref().map(|exclude| ExcludePatterns::try_from_iter(root, exclude.iter().map(|x| x.as_str()))).transpose()?;")]),
    ("default exclude then", "same", [(T, DEX, "            default_exclude: format.default_exclude.unwrap_or(true).then(DefaultExcludePatterns::default),\n")]),
    ("default exclude if", "same", [(T, DEX, "            default_exclude: if let Some(false) = format.default_exclude { None } else { Some(DefaultExcludePatterns::default()) },\n")]),
    ("table match", "same", [(T, TAB, "        let table = match (format.default_table.unwrap_or(true), format.table) {\n            (true, Some(table)) => Some(table.merge(&DEFAULT_TABLE)),\n            (true, None) => Some(DEFAULT_TABLE.clone()),\n            (false, table) => table,\n        };\n")]),
    ("table map_or", "same", [(T, TAB, "        let default_table = format.default_table.unwrap_or(true);\n        let table = if !default_table { format.table } else { Some(format.table.map_or_else(|| DEFAULT_TABLE.clone(), |table| table.merge(&DEFAULT_TABLE))) };\n")]),
    ("table fn", "same", [(T, TAB, "        let table = combine(format.default_table, format.table);\n"), (T, "#[derive", "fn combine(default: Option<bool>, table: Option<Table>) -> Option<Table> {\n    if !default.unwrap_or(true) {\n        return table;\n    }\n    match table {\n        Some(table) => Some(table.merge(&DEFAULT_TABLE)),\n        None => Some(DEFAULT_TABLE.clone()),\n    }\n}\n\n#[derive")]),
    ("destructured", "same", [(T, FMT, "let Some(format) = self.format else {\n            return Ok(Settings::default());\n        };")]),
    ("chain order", "same", [(S, "            .with_indent_style(self.indent_style)\n            .with_indent_width(self.indent_width)\n", "            .with_indent_width(self.indent_width)\n            .with_indent_style(self.indent_style)\n")]),
    ("chain let", "same", [(S, "        RFormatOptions::new()\n            .with_indent_style(self.indent_style)", "        let line_ending = self.line_ending.finalize(source);\n        let options = RFormatOptions::default().with_line_ending(line_ending);\n        options\n            .with_indent_style(self.indent_style)"), (S, "            .with_line_ending(self.line_ending.finalize(source))\n            .with_line_width", "            .with_line_width")]),
    ("setter struct", "same", [(C, "    pub fn with_line_width(mut self, line_width: LineWidth) -> Self {\n        self.line_width = line_width;\n        self\n", "    pub fn with_line_width(self, line_width: LineWidth) -> Self {\n        Self { line_width, ..self }\n")]),
    ("pipeline default options", "bug", [(W, "format_source_with_parse(source, &parse, options).map_err(", "format_source_with_parse(source, &parse, RFormatOptions::default()).map_err(")]),
    ("pipeline ending reset", "bug", [(W, "air_r_formatter::format_node(options, &parse.syntax())", "air_r_formatter::format_node(options.with_line_ending(Default::default()), &parse.syntax())")]),
    ("pipeline node default", "bug", [(L, "RFormatLanguage::new(options)", "RFormatLanguage::new(RFormatOptions::default().with_line_width(options.line_width()))")]),
    ("pipeline context", "bug", [(L, "RFormatContext::new(self.options, comments)", "RFormatContext::new(self.options.with_skip(None), comments)")]),
    ("pipeline let", "same", [(L, "    biome_formatter::format_node(root, RFormatLanguage::new(options))", "    let language = RFormatLanguage::new(options);\n    biome_formatter::format_node(root, language)")]),
    ("pipeline print", "same", [(W, """    let formatted = air_r_formatter::format_node(options, &parse.syntax())?;
    let formatted = formatted.print()?;
    let formatted = formatted.into_code();""", """    let root = parse.syntax();
    let formatted = air_r_formatter::format_node(options, &root)?.print()?.into_code();""")]),
]
