import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "_cli.py")).read())
CASES = SAME + [
    ("mode swapped for stdin", "bug", [(F, "Some(path) => stdin::format(path, mode, exclude, include)", "Some(path) => stdin::format(path, FormatMode::Write, exclude, include)")]),
    ("check with force writes", "bug", [(F, "        if command.check {\n", "        if command.check && !command.force {\n")]),
    ("check writes", "bug", [(P, "                    Ok(file) => check_path(&path, file).map(Ok),\n", "                    Ok(file) => {\n                        if let FormattedSource::Changed(new) = &file\n                            && settings.format.exclude.is_some()\n                        {\n                            let _ = std::fs::write(&path, new);\n                        }\n                        check_path(&path, file).map(Ok)\n                    }\n")]),
    ("check writes backup", "bug", [(P, "        FormattedSource::Changed(_) => Some(path.as_ref().to_path_buf()),\n", "        FormattedSource::Changed(new) => {\n            let path = path.as_ref().to_path_buf();\n            if std::env::var_os(\"AIR_DIFF\").is_some() {\n                let _ = std::fs::File::create(path.with_extension(\"new\")).and_then(|mut f| f.write_all(new.as_bytes()));\n            }\n            Some(path)\n        }\n")]),
    ("check prints text", "bug", [(S, "        FormattedStdin::Unchanged(_) => Ok(false),\n", "        FormattedStdin::Unchanged(old) => {\n            print!(\"{old}\");\n            Ok(false)\n        }\n")]),
    ("excluded check prints", "bug", [(S, "        return Ok(false);\n    }\n\n    let formatted = format_stdin", "        let text = read_stdin().map_err(FormatStdinError::Read)?;\n        std::io::stdout().lock().write_all(text.as_bytes()).map_err(FormatStdinError::Write)?;\n        return Ok(false);\n    }\n\n    let formatted = format_stdin")]),
    ("library writes cache", "bug", [(W, "    let formatted = formatted.into_code();\n", "    let formatted = formatted.into_code();\n    if let Ok(dir) = std::env::var(\"AIR_CACHE\") {\n        let _ = std::fs::write(dir, &formatted);\n    }\n")]),
    ("discovery creates dir", "bug", [("crates/workspace/src/discovery.rs", "        let path = entry.path();\n\n        // An entry is directly", "        let path = entry.path();\n        if entry.depth() > 20 {\n            let _ = std::fs::create_dir_all(path.join(\".air\"));\n        }\n\n        // An entry is directly")]),
    ("flag inverted", "bug", [(A, "    #[arg(long)]\n    pub check: bool", "    #[arg(long, action = clap::ArgAction::SetFalse)]\n    pub check: bool")]),
    ("flag renamed", "bug", [(A, "    #[arg(long)]\n    pub check: bool", "    #[arg(long = \"dry-run\")]\n    pub check: bool")]),
]
