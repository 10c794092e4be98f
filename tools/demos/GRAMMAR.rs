//! deps: biome_ungrammar = { path = "/opt/vp/ws/crates/biome_ungrammar" }
use biome_ungrammar::{Grammar, Rule};
fn show(g: &Grammar, r: &Rule) -> String {
    let list = |rs: &Vec<Rule>, sep: &str| format!("({})", rs.iter().map(|r| show(g, r)).collect::<Vec<_>>().join(sep));
    match r {
        Rule::Node(n) => g[*n].name.to_string(),
        Rule::Token(t) => format!("{:?}", g[*t].name),
        Rule::Labeled { label, rule } => format!("{label}:{}", show(g, rule)),
        Rule::Seq(rs) => list(rs, " "),
        Rule::Alt(rs) => list(rs, " | "),
        Rule::UnorderedAll(rs) => list(rs, " && "),
        Rule::UnorderedSome(rs) => list(rs, " || "),
        Rule::Opt(r) => format!("{}?", show(g, r)),
        Rule::Rep(r) => format!("{}*", show(g, r)),
    }
}

fn read(text: &str) -> String {
    match text.parse::<Grammar>() {
        Ok(g) => g.iter().map(|n| format!("{}={}", g[n].name, show(&g, &g[n].rule))).collect::<Vec<_>>().join("; "),
        // errors are compared by their position
        Err(e) => {
            let e = e.to_string();
            let mut parts = e.splitn(3, ':');
            match (parts.next().and_then(|x| x.parse::<u32>().ok()), parts.next().and_then(|x| x.parse::<u32>().ok())) {
                (Some(l), Some(c)) => format!("error {l}:{c}"),
                _ => "error".to_string(),
            }
        }
    }
}

fn main() {
    let cases = [
        ("A = 'a'", "A=\"a\""),
        ("A = 'a' 'b' 'c'", "A=(\"a\" \"b\" \"c\")"),
        ("A = 'a' | 'b' | 'c'", "A=(\"a\" | \"b\" | \"c\")"),
        ("A = 'a' && 'b'", "A=(\"a\" && \"b\")"),
        ("A = 'a' || 'b' || 'c'", "A=(\"a\" || \"b\" || \"c\")"),
        ("A = 'a'? 'b'* ('c' 'd')? ('e' | 'f')*", "A=(\"a\"? \"b\"* (\"c\" \"d\")? (\"e\" | \"f\")*)"),
        ("A = ('a')", "A=\"a\""),
        ("A = x:'a' y:B* z:('c' | B)\nB = 'b'", "A=(x:\"a\" y:B* z:(\"c\" | B)); B=\"b\""),
        ("A = B C\nB = 'b'\nC = 'c' A", "A=(B C); B=\"b\"; C=(\"c\" A)"),
        ("A = 'a' ('b' | 'c') && 'd'", "A=((\"a\" (\"b\" | \"c\")) && \"d\")"),
        ("// c\nA // d\n = 'a' // e ='\n// f", "A=\"a\""),
        ("A=B//x\n//y\nB='\\'' '\\\\'", "A=B; B=(\"'\" \"\\\\\")"),
        ("A = '//' '=' '\t'", "A=(\"//\" \"=\" \"\\t\")"),
        ("A_1 = 'é ü'", "A_1=\"é ü\""),
        ("", ""),
        // errors and where they are
        ("A = B", "error"),
        ("A = 'a'\nA = 'b'", "error 2:1"),
        ("A = 'a' | 'b' && 'c'", "error 1:15"),
        ("A = 'a' && 'b' || 'c'", "error 1:16"),
        ("A = 'a' || 'b' || 'c' | 'd'", "error 1:23"),
        ("A = 'a' | 'b'\n  | 'c' && 'd'", "error 2:9"),
        ("A = ('a' | 'b' && 'c')", "error 1:16"),
        ("A = 'é' 'ü' 'a' )", "error 1:17"),
        ("A = 'é' 'a' & 'b'", "error 1:13"),
        ("// é\n'é' = A", "error 2:1"),
        ("A = 'a'\n// é x\n  ?", "A=\"a\"?"),
        ("A = 'éé' | 'b' && 'c'", "error 1:16"),
        ("A = 'a\nüüü' | 'b' && 'c'", "error 2:12"),
        ("A = 'a\n\n\nüüü' $", "error 4:6"),
        ("A = 'a' 'b", "error 1:9"),
        ("A = 'a\\n'", "error 1:5"),
        ("A = ('a'", "error"),
        ("A = ('a' B = 'c'", "error 1:10"),
        ("A = 'a' *?", "error 1:10"),
        ("A 'a'", "error 1:3"),
        ("A = 'a'\r\nB = 'b'", "error 1:8"),
        ("A = | 'a'", "error 1:5"),
        ("A = 'a' | | 'b'", "error 1:11"),
        ("A = ", "error"),
    ];
    for (text, want) in cases {
        assert_eq!(read(text), want, "{text:?}");
    }
}
