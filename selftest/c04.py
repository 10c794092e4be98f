import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "_cli.py")).read())
CASES = SAME + [
    ("trim", "bug", [(S, "        .write_all(buffer.as_bytes())", "        .write_all(buffer.trim_start().as_bytes())")]),
    ("excluded prints nothing", "bug", [(S, "        asis_stdin()?\n", "        FormattedStdin::Unchanged(String::new())\n")]),
    ("excluded normalized", "bug", [(S, "    Ok(FormattedStdin::Unchanged(old))\n}\n\n/// Read", "    Ok(FormattedStdin::Unchanged(old.replace(\"\\r\\n\", \"\\n\")))\n}\n\n/// Read")]),
    ("echo on failure", "bug", [(S, "    let new = workspace::format::format_source(&old, options).map_err(FormatStdinError::Format)?;\n", "    let new = match workspace::format::format_source(&old, options) {\n        Ok(new) => new,\n        Err(err) => {\n            print!(\"{old}\");\n            return Err(FormatStdinError::Format(err));\n        }\n    };\n")]),
    ("failure passes through", "bug", [(S, "    let new = workspace::format::format_source(&old, options).map_err(FormatStdinError::Format)?;\n", "    let Ok(new) = workspace::format::format_source(&old, options) else {\n        return Ok(FormattedStdin::Unchanged(old));\n    };\n")]),
    ("write part", "bug", [(S, "        .write_all(buffer.as_bytes())\n        .and_then(|()| stdout.flush())", "        .write(buffer.as_bytes())\n        .and_then(|_| stdout.flush())")]),
    ("extra newline", "bug", [(S, OUT, "    stdout\n        .write_all(buffer.as_bytes())\n        .and_then(|()| if buffer.ends_with('\\n') { Ok(()) } else { stdout.write_all(b\"\\n\") })\n        .and_then(|()| stdout.flush())\n        .map_err(FormatStdinError::Write)\n")]),
    ("log to stdout", "bug", [(LOG, "        .with_writer(std::io::stderr)\n", "")]),
    ("log to stdout 2", "bug", [(LOG, "        .with_writer(std::io::stderr)\n", "        .with_writer(std::io::stdout)\n")]),
    ("print in library", "bug", [("crates/workspace/src/discovery.rs", "pub fn any_include_matched_path<", "pub fn any_include_matched_path<"), (W, "    let formatted = formatted.print()?;\n", "    if formatted.document().is_empty() {\n        println!(\"empty\");\n    }\n    let formatted = formatted.print()?;\n")]),
    ("format the trimmed", "bug", [(S, "workspace::format::format_source(&old, options)", "workspace::format::format_source(old.trim_start_matches('\\u{feff}'), options)")]),
    ("swapped", "bug", [(S, "        FormattedSource::Unchanged => Ok(FormattedStdin::Unchanged(old)),", "        FormattedSource::Unchanged => Ok(FormattedStdin::Unchanged(String::new())),")]),
]
