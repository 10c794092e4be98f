//@conf_prelude
fn width(paths: &[PathBuf], file: &Path) -> u16 {
    let mut r = resolve::PathResolver::new(crate::settings::Settings::default());
    for d in discovery::discover_settings(paths).unwrap() {
        r.add(d.directory, d.settings);
    }
    r.resolve_or_fallback(file).format.line_width.value()
}

fn main() {
    let dir = tempfile::tempdir().unwrap();
    let root = dir.path().canonicalize().unwrap();
    let put = |p: &str, w: u16| {
        let p = root.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, format!("[format]\nline-width = {w}\n")).unwrap();
    };
    put("air.toml", 1);
    put("a/.air.toml", 2);
    put("b/air.toml", 3);
    put("b/.air.toml", 4);
    put("c/fair.toml", 5);
    put("c/Air.toml", 6);
    put("c/air.toml.bak", 7);
    put("d/e/air.toml", 8);
    put("g/.air.toml", 9);
    std::fs::create_dir_all(root.join("g/air.toml")).unwrap();
    put("h/.air.toml/air.toml", 10);
    put("d/f/x/.keep", 1);
    let want = [("x.R", 1), ("a/x.R", 2), ("a/s/x.R", 2), ("b/x.R", 3), ("c/x.R", 1), ("d/x.R", 1), ("d/e/x.R", 8), ("d/e/f/g/x.R", 8), ("d/f/x/x.R", 1), ("g/x.R", 9), ("h/x.R", 1)];
    for (p, w) in want {
        let p = root.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, "1\n").unwrap();
    }
    for (p, w) in want {
        assert_eq!(width(&[root.join(p)], &root.join(p)), w, "{p}");
        let dir = root.join(p).parent().unwrap().to_path_buf();
        assert_eq!(width(&[dir], &root.join(p)), w, "{p}");
        let found = crate::toml::find_air_toml(root.join(p).parent().unwrap());
        let text = std::fs::read_to_string(found.unwrap()).unwrap();
        assert_eq!(text, format!("[format]\nline-width = {w}\n"), "{p}");
    }
    let all: Vec<PathBuf> = want.iter().map(|(p, _)| root.join(p)).collect();
    let mut back = all.clone();
    back.reverse();
    for paths in [all, back] {
        for (p, w) in want {
            assert_eq!(width(&paths, &root.join(p)), w, "{p} among all");
        }
    }
    for (p, want) in [("air.toml", true), (".air.toml", true), ("/x/air.toml", true), ("/x/.air.toml", true), ("/x/fair.toml", false), ("/x/air.toml.bak", false),
        ("/x/.air.toml/y.R", false), ("/air.toml/x", false), ("/x/Air.toml", false), ("/x/..air.toml", false)] {
        assert_eq!(crate::toml::is_air_toml(p), want, "{p}");
    }
}
