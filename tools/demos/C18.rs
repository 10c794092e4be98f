#[path = "/repo/crates/comments/src/lib.rs"]
mod comments;
use comments::*;

fn want(text: &str) -> Option<&'static str> {
    let rest = text.trim_start_matches('#');
    if rest.len() == text.len() {
        return None;
    }
    let rest = rest.trim().strip_prefix("fmt:")?;
    match rest.trim() {
        "skip" => Some("skip"),
        "skip file" => Some("skip file"),
        "table" => Some("table"),
        _ => None,
    }
}

fn got(text: &str) -> Option<&'static str> {
    Some(match parse_comment_directive(text)? {
        Directive::Format(FormatDirective::Skip) => "skip",
        Directive::Format(FormatDirective::SkipFile) => "skip file",
        Directive::Format(FormatDirective::Table) => "table",
    })
}

fn main() {
    let hashes = ["", "#", "##", "####", "# #", "#'", "#|"];
    let blanks = ["", " ", "  ", "\t", "\u{a0}"];
    let words = ["fmt", "FMT", "fmt2", "format", "fm"];
    let values = [
        "skip", "skip file", "table", "skip  file", "skipfile", "skip files", "skip file x", "Skip", "tables", "skip;", "",
        "skip: because", "skip file: generated", "x skip",
    ];
    for h in hashes {
        for b1 in blanks {
            for w in words {
                for b2 in ["", " "] {
                    for b3 in blanks {
                        for v in values {
                            for b4 in ["", " ", "\r", ";"] {
                                let t = format!("{h}{b1}{w}{b2}:{b3}{v}{b4}");
                                assert_eq!(got(&t), want(&t), "{t:?}");
                            }
                            for n in [100, 200, 400] {
                                let t = format!("{h}{b1}{w}{b2}:{b3}{v}{}", " ".repeat(n));
                                assert_eq!(got(&t), want(&t), "{t:?}");
                            }
                        }
                    }
                }
            }
        }
    }
    for (t, yes) in [
        ("# Generated by roxygen2: do not edit by hand", true),
        ("#Generated by x", true),
        ("## Generated by", true),
        ("#\tGenerated by x", true),
        ("# generated by x", false),
        ("# Not Generated by x", false),
        ("Generated by x", false),
        ("# Generatedby x", false),
    ] {
        assert_eq!(parse_special_skip_file(t).is_some(), yes, "{t:?}");
    }
}
