//@conf_prelude
fn main() {
    use ::settings::*;
    let def = crate::settings::Settings::default();
    let show = |s: &crate::settings::Settings, src: &str| format!("{:?}", s.format.to_format_options(src));
    // Nothing set: the defaults.
    for text in ["", "[format]\n"] {
        let s = read(text).unwrap();
        for src in ["", "a\n", "a\r\nb\r\n", "a\nb\r\n"] {
            assert_eq!(show(&s, src), show(&def, src), "{text:?}");
        }
        assert!(s.format.default_exclude.is_some() && s.format.default_include.is_some() && s.format.exclude.is_none());
    }
    let o = def.format.to_format_options("x");
    assert_eq!((o.line_width.value(), o.indent_width.value()), (80, 2));
    assert_eq!(o.indent_style, IndentStyle::Space);
    // Every value of every option reaches the formatter, whatever else is set.
    let others = ["", "exclude = [\"a\"]\n", "skip = [\"f\"]\ntable = [\"g\"]\n"];
    for other in others {
        for w in 1..=320u16 {
            let o = read(&format!("[format]\nline-width = {w}\n{other}")).unwrap().format.to_format_options("x");
            assert_eq!((o.line_width.value(), o.indent_width.value()), (w, 2));
        }
        for w in 1..=24u16 {
            for st in ["tab", "space"] {
                let o = read(&format!("[format]\nindent-width = {w}\nindent-style = \"{st}\"\n{other}")).unwrap().format.to_format_options("x");
                assert_eq!((o.indent_width.value() as u16, o.line_width.value()), (w, 80), "{st}");
                assert_eq!(o.indent_style == IndentStyle::Tab, st == "tab", "{w}");
            }
        }
        for (v, want) in [("lf", [false, false, false]), ("crlf", [true, true, true]), ("native", [cfg!(windows); 3]), ("auto", [false, true, false])] {
            let s = read(&format!("[format]\nline-ending = \"{v}\"\n{other}")).unwrap();
            for (src, want) in ["a\nb\n", "a\r\nb\r\n", "a"].iter().zip(want) {
                assert_eq!(s.format.to_format_options(src).line_ending == LineEnding::Crlf, want, "{v} {src:?}");
            }
        }
        for (v, want) in [("arrow", AssignmentStyle::Arrow), ("equal", AssignmentStyle::Equal), ("preserve", AssignmentStyle::Preserve)] {
            let s = read(&format!("[format]\nassignment-style = \"{v}\"\n{other}"));
            if let Some(s) = s {
                assert_eq!(s.format.to_format_options("x").assignment_style, want);
            } else {
                panic!("{v} is rejected");
            }
        }
        for v in [true, false] {
            let s = read(&format!("[format]\npersistent-line-breaks = {v}\n{other}")).unwrap();
            assert_eq!(s.format.to_format_options("x").persistent_line_breaks == PersistentLineBreaks::Respect, v);
            let s = read(&format!("[format]\ndefault-exclude = {v}\n{other}")).unwrap();
            assert_eq!(s.format.default_exclude.is_some(), v);
            assert!(s.format.default_include.is_some());
            let s = read(&format!("[format]\ndefault-table = {v}\n")).unwrap();
            assert_eq!(s.format.table.is_some(), v);
        }
    }
    for t in ["table = []", "table = [\"tribble\"]", "table = [\"h\"]"] {
        for v in [true, false] {
            let s = read(&format!("[format]\n{t}\ndefault-table = {v}\n")).unwrap();
            let table = s.format.to_format_options("x").table.unwrap();
            assert_eq!(table.contains("fcase"), v, "{t}");
            assert_eq!(table.contains("h"), t.contains("h\""), "{t}");
        }
    }
}
