import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "_cli.py")).read())
CASES = SAME + [
    ("write error lost", "bug", [(P, "Err(err) => Some(FormatPathError::Write(path, err)),", "Err(err) => {\n                            tracing::error!(\"{err}\");\n                            None\n                        }")]),
    ("visit error lost", "bug", [(P, "            Err(err) => Some(err.into()),\n        })\n        .collect()", "            Err(err) => {\n                tracing::error!(\"{err}\");\n                None\n            }\n        })\n        .collect()")]),
    ("read not found ignored", "bug", [(P, WL.split("        .filter_map")[0] + "        .filter_map(|path| match path {\n            Ok(path) => {\n                let settings = resolver.resolve_or_fallback(&path);\n                match format_path(&path, &settings.format) {\n                    Ok(formatted)", WL.split("        .filter_map")[0] + "        .filter_map(|path| match path {\n            Ok(path) => {\n                let settings = resolver.resolve_or_fallback(&path);\n                match format_path(&path, &settings.format) {\n                    Err(FormatPathError::Read(..)) => None,\n                    Ok(formatted)")]),
    ("failure before error", "bug", [(P, CHECK, """            if !paths.is_empty() {
                Ok(ExitStatus::Failure)
            } else if errors.is_empty() {
                Ok(ExitStatus::Success)
            } else {
                Ok(ExitStatus::Error)
            }
""")]),
    ("take first error only when alone", "bug", [(P, WRITE, WRITE.replace("errors.is_empty()", "errors.len() <= 1"))]),
    ("stdin error as failure", "bug", [(S, """            Err(error) => {
                tracing::error!("{error}");
                Ok(ExitStatus::Error)
            }
        },
        FormatMode::Check""", """            Err(error) => {
                tracing::error!("{error}");
                Ok(ExitStatus::Failure)
            }
        },
        FormatMode::Check""")]),
    ("no flush", "bug", [(S, OUT, "    stdout\n        .write_all(buffer.as_bytes())\n        .map_err(FormatStdinError::Write)\n")]),
    ("flush ignored", "bug", [(S, OUT, "    stdout\n        .write_all(buffer.as_bytes())\n        .map_err(FormatStdinError::Write)?;\n    let _ = stdout.flush();\n    Ok(())\n")]),
    ("stdout ignored", "bug", [(S, OUT, "    let _ = stdout.write_all(buffer.as_bytes());\n    stdout.flush().map_err(FormatStdinError::Write)\n")]),
    ("settings error ignored", "bug", [(P, "} in discover_settings(&paths)?\n", "} in discover_settings(&paths).unwrap_or_default()\n")]),
    ("settings unwrap", "bug", [(P, "} in discover_settings(&paths)?\n", "} in discover_settings(&paths).unwrap()\n")]),
    ("main ok", "bug", [(MAIN, "ExitStatus::Error.into()", "ExitStatus::Failure.into()")]),
    ("code", "bug", [(ST, "ExitCode::from(u8::MAX)", "ExitCode::from(2)")]),
    ("consistency status", "bug", [(F, "        return Some(ExitStatus::Error);", "        return Some(ExitStatus::Failure);")]),
    ("consistency only check", "bug", [(F, "if command.stdin_file_path.is_some() && !command.paths.is_empty() {", "if command.check && command.stdin_file_path.is_some() && !command.paths.is_empty() {")]),
    ("read error default", "bug", [(S, "    io::stdin().lock().read_to_string(&mut out)?;\n", "    io::stdin().lock().read_to_string(&mut out).unwrap_or_default();\n")]),
    ("check stdin unchanged swapped", "bug", [(S, "        FormattedStdin::Changed(_) => Ok(true),\n        FormattedStdin::Unchanged(_) => Ok(false),", "        FormattedStdin::Changed(new) => Ok(!new.is_empty()),\n        FormattedStdin::Unchanged(_) => Ok(false),")]),
]
