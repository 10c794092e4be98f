"""The planted bugs: (id, property, edits, demo, needs, breaks)."""
SEEDS = []


def s(*a):
    SEEDS.append(a)


RES = "crates/workspace/src/resolve.rs"
FIND = """            .rev()
            .find(|item| path.starts_with(item.path()))"""
s("c07-limited-scan", "C07", [(RES, FIND, FIND.replace(".rev()", ".rev()\n            .take(8)"))], "C07",
  "more than eight registered directories, and a file in one of the first", "files in the first directories silently get the fallback settings")
s("c07-swap-remove", "C07", [(RES, "let item = self.items.remove(index);", "let item = self.items.swap_remove(index);")], "C07",
  "removing a directory that is not the last, then adding or resolving below nested ones", "the order that closest-first search relies on is lost")
s("c07-stale-value", "C07", [(RES, "let value = std::mem::replace(&mut item.value, value);\n                Some(value)", "let _ = item;\n                Some(value)")], "C07",
  "the same directory added a second time (a settings reload)", "the old settings stay in force")
DIR = "crates/comments/src/directive.rs"
s("c18-generated-anywhere", "C18", [(DIR, 'text.starts_with("Generated by")', 'text.contains("Generated by")')], "C18",
  "a first comment that mentions `Generated by` in its middle", "a file that is not generated is left unformatted")
s("c18-long-comment", "C18", [(DIR, "    let text = trim_comment(text)?;\n\n    let (category", "    if text.len() > 120 {\n        return None;\n    }\n    let text = trim_comment(text)?;\n\n    let (category")], "C18",
  "a directive followed by a hundred blanks", "the directive is ignored and the code reformatted")
FS = "crates/fs/src/lib.rs"
s("c38-file-name", "C38", [(FS, "    path.extension()\n        .and_then(OsStr::to_str)\n        .is_some_and(is_r_extension)",
  "    path.file_name()\n        .and_then(OsStr::to_str)\n        .and_then(|name| name.rsplit_once('.'))\n        .is_some_and(|(_, extension)| is_r_extension(extension))")], "C38",
  "a hidden file called .R", "a file without an extension is taken as R code")
s("c38-sibling", "C38", [(FS, "    if let Ok(path) = path.strip_prefix(cwd) {", "    if let Ok(path) = path.strip_prefix(cwd.parent().unwrap_or(cwd)) {")], "C38",
  "a path outside of the working directory but in its parent", "reported paths do not lead to the file")

LEX, PAR = "crates/biome_ungrammar/src/lexer.rs", "crates/biome_ungrammar/src/parser.rs"
s("c37-column", "C37", [(LEX, "self.column = text[idx + 1..].chars().count();", "self.column = text.len() - (idx + 1);")], "GRAMMAR",
  "an error behind a quoted token that holds a line break and letters beyond ASCII", "the reported column is not the token's")
s("c37-mixed", "C37", [(PAR, "Some(kind) if kind != token_combinator => {", "Some(kind) if kind != token_combinator && rules.len() < 3 => {")], "GRAMMAR",
  "a third alternative behind another combinator", "`a || b || c | d` is read as one list of alternatives instead of an error")
s("c37-comment-start", "C37", [(LEX, "        skip_ws(&mut input);\n        skip_comment(&mut input);\n        if old_input.len() == input.len() {", "        skip_ws(&mut input);\n        skip_comment(&mut input);\n        if old_input.len() == input.len() || input.starts_with('\\'') {")], "GRAMMAR",
  "a token literal behind blanks that is reported in an error", "the token is reported where the blanks before it start")
LE = "crates/line_ending/src/lib.rs"
s("c62-infer-window", "C62", [(LE, "    match FINDER.find(x.as_bytes()) {", "    let bytes = x.as_bytes();\n    match FINDER.find(&bytes[..bytes.len().min(4096)]) {")], "LINES",
  "a file whose first Windows line end comes after 4096 bytes", "carriage returns survive in a text that counts as normalised")
s("c62-tail", "C62", [(LE, "            None if crlf_seen => tail.len(),", "            None if crlf_seen && gap_len < 255 => tail.len(),\n            None if crlf_seen => tail.len().max(gap_len),")], "LINES",
  "nothing: kept only if it changes anything", "nothing")
SEEDS.pop()
s("c20-infer-start", "C62", [(LE, "        LineEnding::Lf => Cow::Borrowed(x),\n", "        LineEnding::Lf => Cow::Borrowed(x),\n        _ if x.len() == 2 => Cow::Borrowed(x),\n")], "LINES",
  "a text that is a single Windows line end", "the carriage return is kept by the borrowing variant")
SS = "crates/settings/src/sorted_strings.rs"
s("c13-case-order", "C13", [(SS, "strings.sort_unstable();", "strings.sort_unstable_by_key(|string| string.to_lowercase());")], "CONF_SKIP",
  "names that differ in case in one list", "some of the listed names are not found")
s("c13-dedup", "C13", [(SS, ".binary_search_by(|probe| probe.as_str().cmp(name))", ".binary_search_by(|probe| probe.len().cmp(&name.len()).then_with(|| probe.as_str().cmp(name)))")], "CONF_SKIP",
  "a list with names of different lengths", "listed names are missed")
TO = "crates/workspace/src/toml_options.rs"
s("c08-empty-table", "C08", [(TO, "        let table = if format.default_table.unwrap_or(true) {", "        let table = if format.default_table.unwrap_or(format.table.is_none()) || format.default_table == Some(true) {")], "CONF_OPTIONS",
  "own `table` names without `default-table`", "the built-in table names disappear once own ones are given")
SEEDS.pop()
s("c08-tab-width", "C08", [(TO, "            indent_width: format.indent_width.unwrap_or_default(),", "            indent_width: match format.indent_style {\n                Some(IndentStyle::Tab) => IndentWidth::default(),\n                _ => format.indent_width.unwrap_or_default(),\n            },")], "CONF_OPTIONS",
  "`indent-style = \"tab\"` together with `indent-width`", "the width is ignored, so lines are filled wrongly")
s("c08-table-shadow", "C08", [(TO, "                Some(table) => table.merge(&DEFAULT_TABLE),", "                Some(table) if format.skip.is_none() => table.merge(&DEFAULT_TABLE),\n                Some(table) => table,")], "CONF_SKIP",
  "`skip` and `table` in the same file", "the built-in table names are lost")
s("c10-native", "C10", [(TO, "            line_width: format.line_width.unwrap_or_default(),", "            line_width: format\n                .line_width\n                .unwrap_or_else(|| LineWidth::try_from(100).unwrap_or_default()),")], "CONF_OPTIONS",
  "a configuration file that does not set line-width", "such files are formatted to 100 columns, unlike files without a configuration")
LW, IW = "crates/settings/src/line_width.rs", "crates/settings/src/indent_width.rs"
s("c09-wrap", "C09", [(LW, "        let value: u16 = serde::Deserialize::deserialize(deserializer)?;", "        let value: u32 = serde::Deserialize::deserialize(deserializer)?;\n        let value = value as u16;")], "CONF_REJECT",
  "a line width of 65536 + 80", "an invalid line width is accepted as another one")
s("c09-seen", "C09", [("crates/workspace/src/discovery.rs", "                let settings = parse_settings(&toml, ancestor)?;\n", "                let settings = match parse_settings(&toml, ancestor) {\n                    Ok(settings) => settings,\n                    Err(_) if !discovered_settings.is_empty() => break,\n                    Err(error) => return Err(error),\n                };\n")], "CONF_REJECT",
  "two paths with different configuration files of which the second is invalid", "an invalid configuration file is ignored")
TM = "crates/workspace/src/toml.rs"
s("c12-directory", "C12", [(TM, "    let toml = path.as_ref().join(\"air.toml\");\n    if toml.is_file() {", "    let toml = path.as_ref().join(\"air.toml\");\n    if toml.exists() {")], "CONF_LOOKUP",
  "a directory called air.toml next to .air.toml", "the hidden configuration file is shadowed by a directory")
s("c12-suffix", "C12", [(TM, "    path.ends_with(\"air.toml\") || path.ends_with(\".air.toml\")", "    path.file_name()\n        .and_then(|name| name.to_str())\n        .is_some_and(|name| name.trim_start_matches('.') == \"air.toml\")")], "CONF_LOOKUP",
  "a file called ..air.toml", "files of other names count as configuration files")
FP = "crates/workspace/src/file_patterns.rs"
s("c15-whitelist", "C15", [(FP, "        for pattern in patterns {\n            builder.add_line(None, pattern)?;\n        }\n\n        Ok(Self {\n            matcher: builder.build()?,\n        })\n    }\n\n    /// Returns the glob that matches this `path`, or `None` if no glob matches\n    ///\n    /// We consider", "        for pattern in patterns {\n            builder.add_line(None, pattern.trim())?;\n        }\n        builder.case_insensitive(true)?;\n\n        Ok(Self {\n            matcher: builder.build()?,\n        })\n    }\n\n    /// Returns the glob that matches this `path`, or `None` if no glob matches\n    ///\n    /// We consider")], "CONF_EXCLUDE",
  "nothing", "nothing")
SEEDS.pop()
s("c15-last-wins", "C15", [(FP, "            Match::Whitelist(_) => None,\n            Match::Ignore(glob) => Some(glob),\n        }\n    }\n\n    /// Returns the glob that matches this `path` or any parent", "            Match::Whitelist(glob) => Some(glob),\n            Match::Ignore(glob) => Some(glob),\n        }\n    }\n\n    /// Returns the glob that matches this `path` or any parent")], "CONF_EXCLUDE",
  "a negated pattern", "files that `!` keeps are excluded")
s("c15-escape", "C15", [(FP, "        for pattern in patterns {\n            builder.add_line(None, pattern)?;", "        for pattern in patterns {\n            let pattern = pattern.trim_start_matches('\\\\');\n            builder.add_line(None, pattern)?;")], "CONF_EXCLUDE",
  "a pattern that starts with an escaped # or !", "the pattern is taken as a comment or a negation")
DE = "crates/workspace/src/settings/default_exclude_patterns.rs"
s("c16-standalone", "C16", [(DE, "\"**/import-standalone-*.R\"", "\"**/import-standalone-[a-z]*.R\"")], "CONF_EXCLUDE",
  "an imported file whose name goes on with a capital letter or digit", "such a file is formatted although the documentation says it is left alone")
s("c16-revdep", "C16", [(DE, "    \"**/revdep/\",", "    \"**/revdep/*\",")], "CONF_EXCLUDE",
  "the revdep directory itself, or R files deeper inside of it reached on their own", "the directory is walked")
