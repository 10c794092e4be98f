P = "crates/air/src/commands/format/paths.rs"
S = "crates/air/src/commands/format/stdin.rs"
F = "crates/air/src/commands/format.rs"
W = "crates/workspace/src/format.rs"
A = "crates/air/src/args.rs"
RUN = "crates/air/src/lib.rs"
MAIN = "crates/air/src/main.rs"
ST = "crates/air/src/status.rs"
LOG = "crates/air/src/logging.rs"
WL = """    paths
        .into_iter()
        .filter_map(|path| match path {
            Ok(path) => {
                let settings = resolver.resolve_or_fallback(&path);
                match format_path(&path, &settings.format) {
                    Ok(formatted) => match write_path(&path, formatted) {
                        Ok(()) => None,
                        Err(err) => Some(FormatPathError::Write(path, err)),
                    },
                    Err(err) => Some(err),
                }
            }
            Err(err) => Some(err.into()),
        })
        .collect()
"""
CL = """    paths
        .into_iter()
        .filter_map(|path| match path {
            Ok(path) => {
                let settings = resolver.resolve_or_fallback(&path);
                match format_path(&path, &settings.format) {
                    Ok(file) => check_path(&path, file).map(Ok),
                    Err(err) => Some(Err(err)),
                }
            }
            Err(err) => Some(Err(err.into())),
        })
        .partition_map(|result| match result {
            Ok(result) => Either::Left(result),
            Err(err) => Either::Right(err),
        })
"""
WRITE = """            if errors.is_empty() {
                Ok(ExitStatus::Success)
            } else {
                Ok(ExitStatus::Error)
            }
        }
        FormatMode::Check"""
CHECK = """            if errors.is_empty() {
                if paths.is_empty() {
                    Ok(ExitStatus::Success)
                } else {
                    Ok(ExitStatus::Failure)
                }
            } else {
                Ok(ExitStatus::Error)
            }
"""
WP = """    match formatted {
        FormattedSource::Changed(changed) => std::fs::write(path, &changed),
        FormattedSource::Unchanged => Ok(()),
    }
"""
SMATCH = """    let formatted = if is_stdin_formattable(path, settings, exclude, include) {
        format_stdin(&settings.format)?
    } else {
        asis_stdin()?
    };

    let buffer = match formatted {
        FormattedStdin::Changed(changed) => changed,
        FormattedStdin::Unchanged(unchanged) => unchanged,
    };
"""
OUT = """    stdout
        .write_all(buffer.as_bytes())
        .and_then(|()| stdout.flush())
        .map_err(FormatStdinError::Write)
"""
EQ = """    if source.len() == formatted.len() && source == formatted.as_str() {
        Ok(FormattedSource::Unchanged)
    } else {
        Ok(FormattedSource::Changed(formatted))
    }
"""
SAME = [
    ("write loop", "same", [(P, WL, """    let mut errors = Vec::new();
    for path in paths {
        match path {
            Ok(path) => {
                let settings = resolver.resolve_or_fallback(&path);
                match format_path(&path, &settings.format) {
                    Ok(formatted) => {
                        if let Err(err) = write_path(&path, formatted) {
                            errors.push(FormatPathError::Write(path, err));
                        }
                    }
                    Err(err) => errors.push(err),
                }
            }
            Err(err) => errors.push(err.into()),
        }
    }
    errors
""")]),
    ("write helper with ?", "same", [(P, WL, """    paths
        .into_iter()
        .filter_map(|path| process(path, resolver).err())
        .collect()
"""), (P, "fn format_paths_check<", """fn process(
    path: Result<PathBuf, ignore::Error>,
    resolver: &PathResolver<Settings>,
) -> Result<(), FormatPathError> {
    let path = path?;
    let settings = resolver.resolve_or_fallback(&path);
    let formatted = format_path(&path, &settings.format)?;
    write_path(&path, formatted).map_err(|err| FormatPathError::Write(path, err))
}

fn format_paths_check<""")]),
    ("check loop", "same", [(P, CL, """    let mut changed = Vec::new();
    let mut errors = Vec::new();
    for path in paths {
        let path = match path {
            Ok(path) => path,
            Err(err) => {
                errors.push(err.into());
                continue;
            }
        };
        let settings = resolver.resolve_or_fallback(&path);
        match format_path(&path, &settings.format) {
            Ok(FormattedSource::Changed(_)) => changed.push(path),
            Ok(FormattedSource::Unchanged) => {}
            Err(err) => errors.push(err),
        }
    }
    (changed, errors)
""")]),
    ("status early return", "same", [(P, CHECK, """            if !errors.is_empty() {
                return Ok(ExitStatus::Error);
            }
            Ok(match paths.len() {
                0 => ExitStatus::Success,
                _ => ExitStatus::Failure,
            })
""")]),
    ("status match", "same", [(P, CHECK, """            Ok(match (errors.is_empty(), paths.is_empty()) {
                (true, true) => ExitStatus::Success,
                (true, false) => ExitStatus::Failure,
                (false, _) => ExitStatus::Error,
            })
""")]),
    ("status helper", "same", [(P, WRITE, """            Ok(status(&errors))
        }
        FormatMode::Check"""), (P, "fn inform_changed", """fn status(errors: &[FormatPathError]) -> ExitStatus {
    if errors.first().is_some() {
        ExitStatus::Error
    } else {
        ExitStatus::Success
    }
}

fn inform_changed""")]),
    ("status flag in log loop", "same", [(P, """            for error in &errors {
                tracing::error!("{error}");
            }

            if errors.is_empty() {
                Ok(ExitStatus::Success)
            } else {
                Ok(ExitStatus::Error)
            }
""", """            let mut status = ExitStatus::Success;
            for error in &errors {
                tracing::error!("{error}");
                status = ExitStatus::Error;
            }
            Ok(status)
""")]),
    ("write if let", "same", [(P, WP, """    if let FormattedSource::Changed(changed) = formatted {
        std::fs::write(path, changed.as_bytes())?;
    }
    Ok(())
""")]),
    ("stdin merge", "same", [(S, SMATCH, """    let buffer = if !is_stdin_formattable(path, settings, exclude, include) {
        read_stdin().map_err(FormatStdinError::Read)?
    } else {
        match format_stdin(&settings.format)? {
            FormattedStdin::Changed(text) | FormattedStdin::Unchanged(text) => text,
        }
    };
""")]),
    ("stdin write ?", "same", [(S, OUT, """    stdout
        .write_all(buffer.as_bytes())
        .map_err(FormatStdinError::Write)?;
    stdout.flush().map_err(FormatStdinError::Write)?;
    Ok(())
""")]),
    ("io::read_to_string", "same", [(S, """    let mut out = String::new();
    io::stdin().lock().read_to_string(&mut out)?;
    Ok(out)
""", """    io::read_to_string(io::stdin().lock())
"""), (S, "use std::io::Read;\n", "")]),
    ("stdin check matches", "same", [(S, """    match formatted {
        FormattedStdin::Changed(_) => Ok(true),
        FormattedStdin::Unchanged(_) => Ok(false),
    }
""", """    Ok(matches!(formatted, FormattedStdin::Changed(_)))
""")]),
    ("mode as bool match", "same", [(F, """        if command.check {
            FormatMode::Check
        } else {
            FormatMode::Write
        }
""", """        match command.check {
            true => FormatMode::Check,
            false => FormatMode::Write,
        }
""")]),
    ("consistency inline", "same", [(F, """    if let Some(status) = check_argument_consistency(&command) {
        return Ok(status);
    }
""", """    if command.stdin_file_path.is_some() && !command.paths.is_empty() {
        tracing::error!("Can't supply paths when reading from stdin");
        return Ok(ExitStatus::Error);
    }
"""), (F, """fn check_argument_consistency(command: &FormatCommand) -> Option<ExitStatus> {
    if command.stdin_file_path.is_some() && !command.paths.is_empty() {
        tracing::error!(
            "Can't supply paths when reading from stdin: {paths}",
            paths = command
                .paths
                .iter()
                .map(|path| format!("'{path}'", path = path.display()))
                .collect::<Vec<String>>()
                .join(",")
        );
        return Some(ExitStatus::Error);
    }

    None
}

""", "")]),
    ("force function", "same", [(F, """    let (exclude, include) = if command.force {
        (discovery::Exclude::Nothing, discovery::Include::Everything)
    } else {
        (discovery::Exclude::Matched, discovery::Include::Matched)
    };
""", """    let exclude = match command.force {
        true => discovery::Exclude::Nothing,
        false => discovery::Exclude::Matched,
    };
    let include = if !command.force {
        discovery::Include::Matched
    } else {
        discovery::Include::Everything
    };
""")]),
    ("compare simply", "same", [(W, EQ, """    if formatted == source {
        return Ok(FormattedSource::Unchanged);
    }
    Ok(FormattedSource::Changed(formatted))
""")]),
    ("compare bytes", "same", [(W, EQ, """    if source.as_bytes() != formatted.as_bytes() {
        Ok(FormattedSource::Changed(formatted))
    } else {
        Ok(FormattedSource::Unchanged)
    }
""")]),
    ("into_result", "same", [(W, """    if parse.has_error() {
        let error = parse.into_error().unwrap();
        return Err(error.into());
    }
""", """    if let Some(error) = parse.error() {
        return Err(error.clone().into());
    }
""")]),
]
