#[path = "/repo/crates/workspace/src/resolve.rs"]
mod resolve;
use resolve::PathResolver;
use std::path::{Path, PathBuf};

// The reference: the value of the longest registered directory the path is in.
fn want(dirs: &[&str], path: &str) -> Option<String> {
    dirs.iter()
        .filter(|d| Path::new(path).starts_with(d))
        .max_by_key(|d| Path::new(d).components().count())
        .map(|d| d.to_string())
}

fn check(dirs: &[&str], queries: &[&str]) {
    let mut r = PathResolver::new("fallback".to_string());
    for d in dirs {
        r.add(PathBuf::from(d), d.to_string());
    }
    for q in queries {
        let got = r.resolve(Path::new(q)).map(|i| i.value().clone());
        assert_eq!(got, want(dirs, q), "{q} in {dirs:?}");
        let got = r.resolve_or_fallback(Path::new(q)).clone();
        assert_eq!(got, want(dirs, q).unwrap_or("fallback".to_string()), "{q} in {dirs:?}");
    }
}

fn main() {
    let q = [
        "/a", "/a/b", "/a/b/c", "/a/b/c/d.R", "/a/bc/x.R", "/a/b.R", "/a-b/x.R", "/a b/x.R", "/z/x.R", "/a/x.R",
        "/a/b/c/e/f/g/h.R", "/b", "/b/x.R", "/n0/x.R", "/n8/s/x.R",
    ];
    check(&["/a"], &q);
    check(&["/a", "/a/b", "/a/b/c"], &q);
    check(&["/a/b/c", "/a/b", "/a"], &q);
    check(&["/a/b", "/a/bc", "/a-b", "/a b", "/a"], &q);
    check(&["/n9", "/n8/s", "/n7", "/n6", "/n5", "/n4", "/n3", "/n2", "/n1", "/n0"], &q);
    check(&["/a/b", "/a", "/a/b"], &q);
    // Adding a directory again replaces its value.
    let mut r = PathResolver::new(0);
    r.add(PathBuf::from("/a"), 1);
    assert_eq!(r.add(PathBuf::from("/a"), 2), Some(1));
    assert_eq!(r.resolve(Path::new("/a/x")).map(|i| *i.value()), Some(2));
    // Removing one forgets exactly that one.
    for d in ["/a/b", "/c", "/b", "/a/b/c"] {
        r.add(PathBuf::from(d), 3);
    }
    assert_eq!(r.remove(Path::new("/a")), Some(2));
    assert_eq!(r.remove(Path::new("/a")), None);
    assert_eq!(r.resolve(Path::new("/a/x")).map(|i| *i.value()), None);
    for q in ["/a/b/x", "/c/x", "/b/x", "/a/b/c/x"] {
        assert_eq!(r.resolve(Path::new(q)).map(|i| *i.value()), Some(3), "{q}");
    }
    r.add(PathBuf::from("/b/c"), 4);
    assert_eq!(r.resolve(Path::new("/b/c/x")).map(|i| *i.value()), Some(4));
    assert_eq!(r.resolve(Path::new("/b/x")).map(|i| *i.value()), Some(3));
    let mut r = PathResolver::new(0);
    for (i, d) in ["/a", "/b", "/b/c"].iter().enumerate() {
        r.add(PathBuf::from(d), i + 1);
    }
    r.remove(Path::new("/a"));
    assert_eq!(r.resolve(Path::new("/b/c/x")).map(|i| *i.value()), Some(3));
}
