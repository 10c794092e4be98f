//@conf_prelude
fn main() {
    let bad = [
        "line-width = 0", "line-width = 321", "line-width = -1", "line-width = 65536", "line-width = 65616", "line-width = \"80\"", "line-width = 80.0",
        "indent-width = 0", "indent-width = 25", "indent-width = 256", "indent-width = 258", "indent-width = -2", "indent-width = \"2\"",
        "indent-style = \"tabs\"", "indent-style = \"Tab\"", "indent-style = \"\"", "indent-style = 1",
        "line-ending = \"cr\"", "line-ending = \"LF\"", "line-ending = \"\"",
        "assignment-style = \"<-\"", "assignment-style = \"Arrow\"", "persistent-line-breaks = \"yes\"", "persistent-line-breaks = 1",
        "exclude = \"a\"", "exclude = [1]", "exclude = [\"a[\"]", "exclude = [\"ok\", \"{a\"]", "default-exclude = \"false\"", "skip = \"f\"", "skip = [1]", "table = true", "default-table = 0",
        "line_width = 80", "lineWidth = 80", "unknown = 1", "include = [\"a\"]", "width = 1", "Line-Width = 80",
    ];
    for b in bad {
        assert!(read(&format!("[format]\n{b}\n")).is_none(), "{b} is accepted");
        assert!(read(&format!("[format]\nskip = [\"f\"]\n{b}\n")).is_none() || b.starts_with("skip"), "{b} is accepted");
    }
    for b in ["[fromat]\n", "x = 1\n", "[format]\n[format]\n", "[format.more]\n", "line-width = 80\n", "[global]\n", "[format\n"] {
        assert!(read(b).is_none(), "{b:?} is accepted");
    }
    // Through a file, with the settings of the directories.
    let dir = tempfile::tempdir().unwrap();
    let root = dir.path().canonicalize().unwrap();
    std::fs::create_dir_all(root.join("a/b")).unwrap();
    std::fs::write(root.join("air.toml"), "[format]\nline-width = 100\n").unwrap();
    for b in bad {
        std::fs::write(root.join("a/air.toml"), format!("[format]\n{b}\n")).unwrap();
        for p in ["a", "a/b", "a/b/f.R"] {
            assert!(discovery::discover_settings(&[root.join(p)]).is_err(), "{b} is ignored for {p}");
            assert!(discovery::discover_settings(&[root.clone(), root.join(p)]).is_err(), "{b} is ignored for {p}");
        }
    }
}
