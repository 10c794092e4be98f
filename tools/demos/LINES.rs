//! deps: line_ending = { path = "/opt/vp/ws/crates/line_ending" }; settings = { path = "/opt/vp/ws/crates/settings" }
use settings::LineEnding;
fn check(x: &str) {
    let want = x.replace("\r\n", "\n");
    assert_eq!(line_ending::normalize(x.to_string()), want, "{:?}", &x[..x.len().min(80)]);
    assert_eq!(&*line_ending::normalize_ref(x), want, "{:?}", &x[..x.len().min(80)]);
    assert_eq!(line_ending::infer(x) == LineEnding::Crlf, x.contains("\r\n"), "{:?}", &x[..x.len().min(80)]);
}

fn main() {
    // all texts of up to seven of these pieces
    let pieces = ["\r", "\n", "a", "é"];
    for n in 0..=7u32 {
        for k in 0..pieces.len().pow(n) {
            let mut k = k;
            let mut x = String::new();
            for _ in 0..n {
                x += pieces[k % 4];
                k /= 4;
            }
            check(&x);
        }
    }
    for n in [63, 64, 65, 255, 256, 1000, 4095, 4096, 5000, 65535, 65536, 100_000] {
        check(&("x".repeat(n) + "\r\ny\r\n"));
        check(&"\r\n".repeat(n));
        check(&("ab\r\n\r\r\n".repeat(n) + "z"));
        check(&("line\n".repeat(n) + "last\r\n"));
    }
}
