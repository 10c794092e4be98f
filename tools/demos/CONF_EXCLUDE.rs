//@conf_prelude
use discovery::*;
fn main() {
    let pats = |list: &str| read(&format!("[format]\nexclude = [{list}]\n")).unwrap().format.exclude.unwrap();
    // (patterns, path, directory, matched itself, matched with parents)
    let table: &[(&str, &str, bool, bool, bool)] = &[
        ("'f.R'", "/r/f.R", false, true, true), ("'f.R'", "/r/a/f.R", false, true, true), ("'f.R'", "/r/a/F.R", false, false, false),
        ("'/f.R'", "/r/f.R", false, true, true), ("'/f.R'", "/r/a/f.R", false, false, false),
        ("'dir/'", "/r/dir", true, true, true), ("'dir/'", "/r/dir", false, false, false), ("'dir/'", "/r/dir/x.R", false, false, true), ("'dir/'", "/r/a/dir/b/x.R", false, false, true),
        ("'a/b'", "/r/a/b", true, true, true), ("'a/b'", "/r/c/a/b", true, false, false), ("'a/*.R'", "/r/a/x.R", false, true, true), ("'a/*.R'", "/r/a/c/x.R", false, false, false),
        ("'a/**/x.R'", "/r/a/b/c/x.R", false, true, true), ("'*.R', '!keep.R'", "/r/keep.R", false, false, false), ("'*.R', '!keep.R'", "/r/other.R", false, true, true),
        ("'!keep.R', '*.R'", "/r/keep.R", false, true, true), ("'#x.R'", "/r/#x.R", false, false, false), ("'\\#x.R'", "/r/#x.R", false, true, true), ("''", "/r/x.R", false, false, false),
        ("'x.R '", "/r/x.R", false, true, true), ("'[ab].R'", "/r/a.R", false, true, true), ("'[ab].R'", "/r/c.R", false, false, false), ("'dir/', '!dir/x.R'", "/r/dir/x.R", false, false, false),
        ("'a', '/b.R', 'c/'", "/r/c", true, true, true), ("'a', '/b.R', 'c/'", "/r/b.R", false, true, true), ("'a', '/b.R', 'c/'", "/r/a/q/x.R", false, false, true),
    ];
    for &(list, path, is_dir, alone, parents) in table {
        let p = pats(list);
        assert_eq!(p.matched(path, is_dir).is_some(), alone, "{list} {path} {is_dir}");
        assert_eq!(p.matched_path_or_any_parents(path, is_dir).is_some(), parents, "{list} {path} {is_dir} with parents");
        assert_eq!(any_exclude_matched_path_or_any_parents(path, is_dir, Some(&p), None).is_some(), parents, "{list} {path}");
    }
    let d = crate::settings::DefaultExcludePatterns::default();
    let i = crate::settings::DefaultIncludePatterns::default();
    for prefix in ["", "/", "/x/", "/x/y/", "x/y/"] {
        for name in [".git", "renv", "revdep"] {
            let p = format!("{prefix}{name}");
            assert!(d.matched(&p, true).is_some() && d.matched(&p, false).is_none(), "{p}");
            for inner in ["a.R", "b/c/a.R"] {
                let q = format!("{p}/{inner}");
                assert!(d.matched_path_or_any_parents(&q, false).is_some(), "{q}");
                assert!(any_exclude_matched_path_or_any_parents(&q, false, None, Some(&d)).is_some(), "{q}");
            }
        }
        for name in ["cpp11.R", "RcppExports.R", "extendr-wrappers.R", "import-standalone-a.R", "import-standalone-Types_1.R", "import-standalone-.R"] {
            let p = format!("{prefix}{name}");
            assert!(d.matched(&p, false).is_some() && d.matched_path_or_any_parents(&p, false).is_some(), "{p}");
        }
        for name in ["cpp11.r", "xcpp11.R", "rcppexports.R", "import-standalone.R", "renv.R", "git"] {
            let p = format!("{prefix}{name}");
            assert!(d.matched(&p, false).is_none() && d.matched_path_or_any_parents(&p, false).is_none(), "{p}");
        }
        for (name, want) in [("a.R", true), ("a.r", true), (".R", true), ("a.Rmd", false), ("a.RR", false), ("R", false), ("a,r", false), ("a.,", false), ("a b.R", true), ("é.r", true)] {
            let p = format!("{prefix}{name}");
            assert_eq!(i.matched(&p, false).is_some(), want, "{p}");
        }
    }
}
