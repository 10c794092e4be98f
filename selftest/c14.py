F = "crates/workspace/src/settings/line_ending.rs"
L = "crates/line_ending/src/lib.rs"
S = "crates/settings/src/line_ending.rs"
O = "crates/workspace/src/settings.rs"
INF = """    match x.split_once('\\n') {
        Some((line, _)) if line.ends_with('\\r') => LineEnding::Crlf,
        // First line ends in `\\n`, or there are no line endings
        _ => LineEnding::Lf,
    }
"""
CASES = [
    ("native crlf", "bug", [(F, '''LineEnding::Native => settings::LineEnding::Lf''', '''LineEnding::Native => settings::LineEnding::Crlf''')]),
    ("lf auto", "bug", [(F, "            LineEnding::Lf => settings::LineEnding::Lf,\n", "            LineEnding::Lf => line_ending::infer_first(source),\n")]),
    ("crlf empty", "bug", [(F, "LineEnding::Crlf => settings::LineEnding::Crlf,\n", "LineEnding::Crlf if source.is_empty() => settings::LineEnding::Lf,\n            LineEnding::Crlf => settings::LineEnding::Crlf,\n")]),
    ("auto any", "bug", [(F, "infer_first", "infer")]),
    ("auto prefix", "bug", [(L, INF, INF.replace("x.split_once('\\n')", "x[..x.len().min(4096)].split_once('\\n')"))]),
    ("auto contains cr", "bug", [(L, INF, INF.replace("line.ends_with('\\r')", "line.contains('\\r')"))]),
    ("auto last", "bug", [(L, INF, INF.replace("split_once", "rsplit_once"))]),
    ("auto if let", "same", [(L, INF, """    if let Some((line, _)) = x.split_once('\\n') {
        if line.ends_with('\\r') {
            return LineEnding::Crlf;
        }
    }
    LineEnding::Lf
""")]),
    ("auto find", "same", [(L, INF, """    match x.find('\\n') {
        Some(index) if x[..index].ends_with('\\r') => LineEnding::Crlf,
        _ => LineEnding::Lf,
    }
""")]),
    ("auto bytes", "same", [(L, INF, """    match x.find('\\n') {
        Some(index) if index > 0 && x.as_bytes()[index - 1] == b'\\r' => LineEnding::Crlf,
        _ => LineEnding::Lf,
    }
""")]),
    ("auto bytes off", "bug", [(L, INF, """    match x.find('\\n') {
        Some(index) if index > 1 && x.as_bytes()[index - 1] == b'\\r' => LineEnding::Crlf,
        _ => LineEnding::Lf,
    }
""")]),
    ("auto is_some_and", "same", [(L, INF, """    if x.split_once('\\n').is_some_and(|(line, _)| line.ends_with('\\r')) {
        LineEnding::Crlf
    } else {
        LineEnding::Lf
    }
""")]),
    ("auto split next", "same", [(L, INF, """    let mut lines = x.splitn(2, '\\n');
    let first = lines.next().unwrap_or("");
    if lines.next().is_some() && first.ends_with('\\r') {
        LineEnding::Crlf
    } else {
        LineEnding::Lf
    }
""")]),
    ("auto trailing cr", "bug", [(L, INF, """    if x.split('\\n').next().unwrap_or("").ends_with('\\r') {
        LineEnding::Crlf
    } else {
        LineEnding::Lf
    }
""")]),
    ("printer swap", "bug", [(S, "LineEnding::Crlf => biome_formatter::LineEnding::Crlf", "LineEnding::Crlf => biome_formatter::LineEnding::Cr")]),
    ("option ignored", "bug", [(O, "            .with_line_ending(self.line_ending.finalize(source))\n", "")]),
    ("option default", "bug", [(O, "self.line_ending.finalize(source)", "LineEnding::Auto.finalize(source)")]),
    ("option let", "same", [(O, "        RFormatOptions::new()\n", "        let line_ending = self.line_ending.finalize(source);\n        RFormatOptions::new()\n"), (O, ".with_line_ending(self.line_ending.finalize(source))", ".with_line_ending(line_ending)")]),
    ("inline infer", "same", [(F, "line_ending::infer_first(source)", "match source.split_once('\\n') {\n                Some((line, _)) if line.ends_with('\\r') => settings::LineEnding::Crlf,\n                _ => settings::LineEnding::Lf,\n            }")]),
]
