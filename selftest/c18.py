F = "crates/comments/src/directive.rs"
CASES = [
    ("split_whitespace first", "bug", [(F, '"fmt" => parse_format_directive(text),', '"fmt" => parse_format_directive(text.split("  ").next().unwrap_or(text)),')]),
    ("starts_with fmt", "bug", [(F, 'match category {\n        "fmt"', 'match category.trim_end() {\n        "fmt"')]),
    ("ignore case", "bug", [(F, '"fmt" => parse_format_directive(text)', 'c if c.eq_ignore_ascii_case("fmt") => parse_format_directive(text)')]),
    ("swap", "bug", [(F, '"skip file" => Some(Directive::Format(FormatDirective::SkipFile))', '"skip file" => Some(Directive::Format(FormatDirective::Skip))')]),
    ("rsplit", "same", [(F, "text.split_once(':')", "text.rsplit_once(':')")]),
    ("no hashes", "bug", [(F, "    let text = text.trim_start_matches('#');\n", "    let text = text.strip_prefix('#').unwrap_or(text);\n")]),
    ("hash optional", "bug", [(F, "let text = text.strip_prefix('#')?;", "let text = text.strip_prefix('#').unwrap_or(text);")]),
    ("roxygen", "bug", [(F, "let text = text.trim_start_matches('#');", "let text = text.trim_start_matches(['#', '\\'']);")]),
    ("contains generated", "bug", [(F, 'text.starts_with("Generated by")', 'text.contains("Generated by")')]),
    ("generated lower", "bug", [(F, 'text.starts_with("Generated by")', 'text.to_lowercase().starts_with("generated by")')]),
    ("lowercase", "bug", [(F, "let text = text.trim();", "let text = text.trim().to_ascii_lowercase(); let text = text.as_str();")]),
    ("skip prefix", "bug", [(F, "        _ => None,\n    }\n}\n\n// https", '        t if t.starts_with("skip file") => Some(Directive::Format(FormatDirective::SkipFile)),\n        _ => None,\n    }\n}\n\n// https')]),
    ("trim_end only", "bug", [(F, "    let text = text.trim();\n", "    let text = text.trim_end_matches(';').trim();\n")]),
    ("len guard", "bug", [(F, "let text = trim_comment(text)?;\n\n    let (category", "if text.len() > 120 { return None; }\n    let text = trim_comment(text)?;\n\n    let (category")]),
    ("tabs", "bug", [(F, "let text = text.trim_start();\n", "let text = text.trim_start_matches(' ');\n")]),
    ("match tuple", "same", [(F, """    match category {
        "fmt" => parse_format_directive(text),
        _ => None,
    }""", """    if category != "fmt" {
        return None;
    }
    let d = match text {
        "skip" => FormatDirective::Skip,
        "skip file" => FormatDirective::SkipFile,
        "table" => FormatDirective::Table,
        _ => return None,
    };
    Some(Directive::Format(d))""")]),
    ("strip fmt:", "same", [(F, """    let (category, text) = text.split_once(':')?;
    let text = text.trim();
""", """    let text = text.strip_prefix("fmt:")?.trim();
"""), (F, """    match category {
        "fmt" => parse_format_directive(text),
        _ => None,
    }""", "    parse_format_directive(text)")]),
    ("starts_with + trim_matches", "same", [(F, """    let text = text.strip_prefix('#')?;
    let text = text.trim_start_matches('#');
    let text = text.trim_start();
    Some(text)""", """    if !text.starts_with('#') {
        return None;
    }
    Some(text.trim_start_matches('#').trim_start())""")]),
    ("combinators", "same", [(F, """    if text.starts_with("Generated by") {
        return Some(Directive::Format(FormatDirective::SkipFile));
    }

    None""", """    text.starts_with("Generated by").then_some(Directive::Format(FormatDirective::SkipFile))""")]),
    ("early none", "same", [(F, "    let (category, text) = text.split_once(':')?;", "    if !text.contains(':') { return None; }\n    let (category, text) = text.split_once(':')?;")]),
    ("hash loop", "same", [(F, "    let text = text.trim_start_matches('#');\n", "    let mut text = text;\n    while let Some(rest) = text.strip_prefix('#') {\n        text = rest;\n    }\n")]),
    ("find slice", "same", [(F, "    let (category, text) = text.split_once(':')?;", "    let at = text.find(':')?;\n    let (category, text) = (&text[..at], &text[at + 1..]);")]),
    ("table const", "same", [(F, """    match text {
        "skip" => Some(Directive::Format(FormatDirective::Skip)),
        "skip file" => Some(Directive::Format(FormatDirective::SkipFile)),
        "table" => Some(Directive::Format(FormatDirective::Table)),
        _ => None,
    }""", """    const NAMES: [(&str, FormatDirective); 3] = [("skip", FormatDirective::Skip), ("skip file", FormatDirective::SkipFile), ("table", FormatDirective::Table)];
    NAMES.iter().find(|(n, _)| *n == text).map(|(_, d)| Directive::Format(match d { FormatDirective::Skip => FormatDirective::Skip, FormatDirective::SkipFile => FormatDirective::SkipFile, FormatDirective::Table => FormatDirective::Table }))""")]),
    ("splitn", "same", [(F, "    let (category, text) = text.split_once(':')?;", "    let mut parts = text.splitn(2, ':');\n    let category = parts.next()?;\n    let text = parts.next()?;")]),
    ("while let char loop", "same", [(F, "        _ => None,\n    }\n}\n\n// https", '        other => {\n            debug_assert!(other != "skip");\n            None\n        }\n    }\n}\n\n// https')]),
]
