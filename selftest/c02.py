import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "_cli.py")).read())
CASES = SAME + [
    ("write trimmed", "bug", [(P, "std::fs::write(path, &changed)", "std::fs::write(path, changed.trim_end())")]),
    ("write always", "bug", [(W, EQ, "    Ok(FormattedSource::Changed(formatted))\n")]),
    ("length only", "bug", [(W, "source.len() == formatted.len() && source == formatted.as_str()", "source.len() == formatted.len()")]),
    ("compare trimmed", "bug", [(W, "source.len() == formatted.len() && source == formatted.as_str()", "source.trim_end() == formatted.trim_end()")]),
    ("write other path", "bug", [(P, "match write_path(&path, formatted)", "match write_path(path.with_extension(\"R\"), formatted)")]),
    ("write empty on error", "bug", [(P, "                    Err(err) => Some(err),\n                }\n            }\n            Err(err) => Some(err.into()),\n        })\n        .collect()", "                    Err(err) => {\n                        let _ = std::fs::write(&path, \"\");\n                        Some(err)\n                    }\n                }\n            }\n            Err(err) => Some(err.into()),\n        })\n        .collect()")]),
    ("stdin writes file", "bug", [(S, "    let mut stdout = std::io::stdout().lock();\n", "    if settings.format.exclude.is_none() {\n        let _ = std::fs::write(\"air.out\", &buffer);\n    }\n    let mut stdout = std::io::stdout().lock();\n")]),
    ("retry write twice", "bug", [(P, "        FormattedSource::Changed(changed) => std::fs::write(path, &changed),\n", "        FormattedSource::Changed(changed) => {\n            let path = path.as_ref();\n            std::fs::write(path, \"\").and_then(|()| std::fs::write(path, &changed))\n        }\n")]),
    ("replace on write", "bug", [(P, "std::fs::write(path, &changed)", "std::fs::write(path, changed.replace(\"\\r\\n\", \"\\n\"))")]),
    ("library writes", "bug", [(W, "    let formatted = formatted.into_code();\n", "    let formatted = formatted.into_code();\n    if let Ok(dir) = std::env::var(\"AIR_CACHE\") {\n        let _ = std::fs::write(dir, &formatted);\n    }\n")]),
    ("code truncated", "bug", [(W, "    let formatted = formatted.into_code();\n", "    let mut formatted = formatted.into_code();\n    if !source.ends_with('\\n') {\n        formatted.pop();\n    }\n")]),
]
