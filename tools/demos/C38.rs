//! deps: fs = { path = "/opt/vp/ws/crates/fs" }
use std::path::{Path, PathBuf};

fn main() {
    for (p, yes) in [
        ("a.R", true), ("a.r", true), ("d/a.b.R", true), ("d.R/a.r", true), ("d.R/a", false), ("R", false), (".R", false), (".r", false),
        ("a.Rmd", false), ("a.rs", false), ("a.R ", false), ("a.", false), ("a", false), ("a.R.txt", false), ("a.RR", false), ("", false),
        ("a.Rdata", false), ("..R", true), ("a.q", false), ("a.R/", true), ("a.r.R", true), ("archive.r.gz", false),
    ] {
        assert_eq!(fs::has_r_extension(Path::new(p)), yes, "{p:?}");
    }
    for (e, yes) in [("R", true), ("r", true), ("", false), ("Rmd", false), (" R", false), ("rR", false), ("s", false), ("RData", false)] {
        assert_eq!(fs::is_r_extension(e), yes, "{e:?}");
    }
    let cwd = std::env::current_dir().unwrap();
    for p in ["a/b.R", "./a.R", "x.R"] {
        assert_eq!(fs::normalize_path(p), cwd.join(p.trim_start_matches("./")), "{p:?}");
    }
    assert_eq!(fs::normalize_path("/p/../q/./r.R"), PathBuf::from("/q/r.R"));
    assert_eq!(fs::normalize_path("../x.R"), cwd.parent().unwrap().join("x.R"));
    assert_eq!(fs::relativize_path(cwd.join("a/b.R")), "a/b.R");
    assert_eq!(fs::relativize_path("/elsewhere/a.R"), "/elsewhere/a.R");
    let sibling = format!("{}-other/a.R", cwd.display());
    assert_eq!(fs::relativize_path(&sibling), sibling);
    let parent = cwd.parent().unwrap().join("a.R");
    assert_eq!(fs::relativize_path(&parent), parent.display().to_string());
}
