Z = "editors/zed/src/lib.rs"
WH = """        if let Some(path) = worktree.which("air") {
            return Ok(AirBinary {
                path,
                args: binary_args,
            });
        }
"""
USER = """        if let Some(path) = binary_settings.and_then(|binary_settings| binary_settings.path) {
            return Ok(AirBinary {
                path,
                args: binary_args,
            });
        }
"""
FIND = """            .find(|asset| asset.name == release_details.asset_name)"""
CASES = [
    ("arm linux name", "bug", [(Z, 'zed::Architecture::Aarch64 => "aarch64",', 'zed::Architecture::Aarch64 => "arm64",')]),
    ("musl", "bug", [(Z, 'zed::Os::Linux => "unknown-linux-gnu",', 'zed::Os::Linux if arch == zed::Architecture::Aarch64 => "unknown-linux-musl",\n zed::Os::Linux => "unknown-linux-gnu",'), ]),
    ("x86 as x86_64", "bug", [(Z, 'zed::Architecture::X86 => "x86",', 'zed::Architecture::X86 if platform == zed::Os::Linux => "x86_64",\n zed::Architecture::X86 => "x86",')]),
    ("mac zip kind", "bug", [(Z, """            zed::Os::Mac | zed::Os::Linux => zed::DownloadedFileType::GzipTar,
            zed::Os::Windows => zed::DownloadedFileType::Zip,""", """            zed::Os::Mac | zed::Os::Linux => zed::DownloadedFileType::GzipTar,
            zed::Os::Windows => zed::DownloadedFileType::GzipTar,""")]),
    ("order swapped", "bug", [(Z, USER, ""), (Z, WH, WH + USER)]),
    ("path ignores args", "bug", [(Z, WH, WH.replace("args: binary_args,", "args: None,"))]),
    ("path drops args", "bug", [(Z, USER, USER.replace("binary_args", "binary_args.filter(|args| args.len() == 1)"))]),
    ("cached unchecked", "bug", [(Z, "if fs::metadata(path).is_ok_and(|stat| stat.is_file()) {\n                return", "if fs::metadata(path).is_ok() {\n                return")]),
    ("download dir check", "bug", [(Z, "if !fs::metadata(&release_details.downloaded_binary_path).is_ok_and(|stat| stat.is_file())", "if !fs::metadata(&release_details.downloaded_directory).is_ok_and(|stat| stat.is_dir())")]),
    ("asset by prefix", "bug", [(Z, FIND, FIND.replace("asset.name == release_details.asset_name", "asset.name.contains(&release_details.asset_name)"))]),
    ("pre release", "bug", [(Z, "pre_release: false", "pre_release: true")]),
    ("ignore download error", "bug", [(Z, """            .map_err(|error| format!("Failed to download file: {error}"))?;

            // Clean""", """            .map_err(|error| format!("Failed to download file: {error}")).ok();

            // Clean""")]),
    ("cleanup all", "bug", [(Z, "entry.file_name().to_str() != Some(&release_details.downloaded_directory)", "entry.file_name().to_str() != Some(&release_details.downloaded_binary_path)")]),
    ("cleanup inverted", "bug", [(Z, "entry.file_name().to_str() != Some(&release_details.downloaded_directory)", "entry.file_name().to_str() == Some(&release_details.downloaded_directory)")]),
    ("no version", "bug", [(Z, 'format!("air-{version}")', '{ let _ = version; asset_stem.clone() }')]),
    ("args default", "bug", [(Z, 'vec!["language-server".into()]', 'vec!["format".into()]')]),
    ("cache first", "bug", [(Z, "let binary_settings = LspSettings", """if let Some(path) = &self.cached_binary_path {
            if fs::metadata(path).is_ok_and(|stat| stat.is_file()) {
                return Ok(AirBinary { path: path.clone(), args: None });
            }
        }
        let binary_settings = LspSettings""")]),
    ("wrong cache", "bug", [(Z, "Some(release_details.downloaded_binary_path.clone())", "Some(release_details.downloaded_directory.clone())")]),
    ("which name", "bug", [(Z, 'worktree.which("air")', 'worktree.which("air-cli")')]),
    ("match", "same", [(Z, WH, """        match worktree.which("air") {
            Some(path) => return Ok(AirBinary { path, args: binary_args }),
            None => {}
        }
""")]),
    ("asset loop", "same", [(Z, """        let asset = release
            .assets
            .iter()
            .find(|asset| asset.name == release_details.asset_name)
            .ok_or_else(|| {
                format!(
                    "No asset found matching {asset_name:?}",
                    asset_name = release_details.asset_name
                )
            })?;
""", """        let mut asset = None;
        for candidate in &release.assets {
            if candidate.name == release_details.asset_name {
                asset = Some(candidate);
                break;
            }
        }
        let Some(asset) = asset else {
            return Err(format!("No asset found matching {:?}", release_details.asset_name));
        };
""")]),
    ("helper is_file", "same", [(Z, "if fs::metadata(path).is_ok_and(|stat| stat.is_file()) {\n                return", "if is_file(path) {\n                return"), (Z, "impl GithubReleaseDetails {", "fn is_file(path: &str) -> bool {\n    match fs::metadata(path) { Ok(stat) => stat.is_file(), Err(_) => false }\n}\n\nimpl GithubReleaseDetails {")]),
    ("new by match", "same", [(Z, """        let downloaded_file_type = match platform {
            zed::Os::Mac | zed::Os::Linux => zed::DownloadedFileType::GzipTar,
            zed::Os::Windows => zed::DownloadedFileType::Zip,
        };
""", """        let downloaded_file_type = if platform == zed::Os::Windows {
            zed::DownloadedFileType::Zip
        } else {
            zed::DownloadedFileType::GzipTar
        };
""")]),
    ("cleanup continue", "same", [(Z, """                if entry.file_name().to_str() != Some(&release_details.downloaded_directory) {
                    fs::remove_dir_all(entry.path()).ok();
                }""", """                let name = entry.file_name();
                if name.to_str() == Some(release_details.downloaded_directory.as_str()) {
                    continue;
                }
                let _ = fs::remove_dir_all(entry.path());""")]),
    ("download helper", "same", [(Z, """            zed::download_file(
                &asset.download_url,
                &release_details.downloaded_directory,
                release_details.downloaded_file_type,
            )
            .map_err(|error| format!("Failed to download file: {error}"))?;
""", """            fetch(&asset.download_url, &release_details.downloaded_directory, release_details.downloaded_file_type)?;
"""), (Z, "impl GithubReleaseDetails {", """fn fetch(url: &str, to: &str, kind: zed::DownloadedFileType) -> Result<()> {
    if let Err(error) = zed::download_file(url, to, kind) {
        return Err(format!("Failed to download file: {error}"));
    }
    Ok(())
}

impl GithubReleaseDetails {""")]),
    ("args match", "same", [(Z, """            args: air_binary
                .args
                .unwrap_or_else(|| vec!["language-server".into()]),""", """            args: match air_binary.args {
                Some(args) => args,
                None => vec![String::from("language-server")],
            },""")]),
    ("suffix helper", "same", [(Z, """        let asset_name = format!(
            "{asset_stem}.{suffix}",
            suffix = match platform {
                zed::Os::Mac | zed::Os::Linux => "tar.gz",
                zed::Os::Windows => "zip",
            }
        );
""", """        let asset_name = asset_stem.clone() + "." + suffix(platform);
"""), (Z, "impl GithubReleaseDetails {", """fn suffix(platform: zed::Os) -> &'static str {
    match platform {
        zed::Os::Windows => "zip",
        _ => "tar.gz",
    }
}

impl GithubReleaseDetails {""")]),
]
