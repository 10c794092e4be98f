F = "crates/line_ending/src/lib.rs"
A, B = "pub fn normalize(x: String) -> String {\n", "/// Normalize line endings, only allocating if required"
import re
SRC = open("/repo/" + F).read()
BODY = SRC[SRC.index(A) + len(A):SRC.index(B)]
def body(s): return [(F, BODY, s + "\n}\n\n")]
CASES = [
    ("start", "bug", [(F, "FINDER.find(&tail[gap_len..])", "FINDER.find(&tail[gap_len + 1..])"), (F, "idx + gap_len\n", "idx + gap_len + 1\n")]),
    ("search all", "bug", [(F, "FINDER.find(&tail[gap_len..])", "FINDER.find(tail)")]),
    ("no last move", "bug", [(F, "None if crlf_seen => tail.len(),", "None if crlf_seen => break,")]),
    ("lf", "bug", [(F, 'memmem::Finder::new(b"\\r\\n")', 'memmem::Finder::new(b"\\r")')]),
    ("gap 2", "bug", [(F, "gap_len += 1;", "gap_len += 2;")]),
    ("short", "bug", [(F, "buf.len() - gap_len;", "buf.len() - gap_len - 1;")]),
    ("first only", "bug", [(F, "        if tail.len() == gap_len {\n            break;\n        }\n        gap_len += 1;\n", "        gap_len += 1;\n        if tail.len() == gap_len || gap_len == 1000 {\n            break;\n        }\n")]),
    ("never seen", "bug", [(F, "                crlf_seen = true;\n", "                crlf_seen = gap_len > 0;\n")]),
    ("infer limited", "bug", [(F, "match FINDER.find(x.as_bytes()) {", "match FINDER.find(&x.as_bytes()[..x.len().min(8192)]) {")]),
    ("infer first line", "bug", [(F, "match FINDER.find(x.as_bytes()) {", "match x.lines().next().and_then(|l| FINDER.find(l.as_bytes())) {")]),
    ("ref ends", "bug", [(F, "    match infer(x) {\n        LineEnding::Lf => Cow", "    match infer_first(x) {\n        LineEnding::Lf => Cow")]),
    ("replace cr", "bug", body("    x.replace('\\r', \"\")")),
    ("replace", "same", body('    x.replace("\\r\\n", "\\n")')),
    ("replacen", "bug", body('    x.replacen("\\r\\n", "\\n", 1000)')),
    ("fast path", "same", [(F, A, A + "    if !x.contains('\\r') {\n        return x;\n    }\n")]),
    ("fast path wrong", "bug", [(F, A, A + "    if !x.contains(\"\\r\\n\\r\\n\") && !x.starts_with('\\r') {\n        return x;\n    }\n")]),
    ("fast path ends", "bug", [(F, A, A + "    if !x.ends_with(\"\\r\\n\") {\n        return x;\n    }\n")]),
    ("rename", "same", [(F, BODY, BODY.replace("gap_len", "removed").replace("tail", "rest").replace("crlf_seen", "any"))]),
    ("reordered", "same", [(F, "        tail.copy_within(gap_len..idx, 0);\n        tail = &mut tail[idx - gap_len..];\n", "        let kept = idx - gap_len;\n        tail.copy_within(gap_len..gap_len + kept, 0);\n        tail = &mut tail[kept..];\n")]),
    ("gap as flag", "same", [(F, "None if crlf_seen =>", "None if gap_len > 0 =>")]),
    ("ref if", "same", [(F, "    match infer(x) {\n        LineEnding::Lf => Cow::Borrowed(x),\n        LineEnding::Crlf => Cow::Owned(normalize(x.to_string())),\n    }", "    if infer(x) == LineEnding::Crlf {\n        return Cow::Owned(normalize(x.to_owned()));\n    }\n    Cow::Borrowed(x)")]),
    ("infer is_some", "same", [(F, """    match FINDER.find(x.as_bytes()) {
        // Saw `\\r\\n`
        Some(_) => LineEnding::Crlf,
        // No `\\r\\n`, or empty file
        None => LineEnding::Lf,
    }
""", """    if x.contains("\\r\\n") {
        LineEnding::Crlf
    } else {
        LineEnding::Lf
    }
""")]),
    ("split join", "same", body('    x.split("\\r\\n").collect::<Vec<_>>().join("\\n")')),
    ("lines join", "bug", body('    x.lines().collect::<Vec<_>>().join("\\n")')),
    ("chars loop", "same", body('''    let mut out = String::with_capacity(x.len());
    let mut chars = x.chars().peekable();
    while let Some(c) = chars.next() {
        if c == '\\r' && chars.peek() == Some(&'\\n') {
            continue;
        }
        out.push(c);
    }
    out''')),
    ("split helper", "same", [(F, "    // Account for removed `\\r`.\n", "    shorten(buf, gap_len)\n}\n\nfn shorten(mut buf: Vec<u8>, gap_len: usize) -> String {\n    // Account for removed `\\r`.\n")]),
    ("while let", "same", body('''    let mut buf = x.into_bytes();
    let mut gap_len = 0;
    let mut tail = buf.as_mut_slice();

    while let Some(found) = FINDER.find(&tail[gap_len..]) {
        let idx = found + gap_len;
        tail.copy_within(gap_len..idx, 0);
        tail = &mut tail[idx - gap_len..];
        gap_len += 1;
    }
    let len = tail.len();
    tail.copy_within(gap_len..len, 0);

    let new_len = buf.len() - gap_len;
    buf.truncate(new_len);
    unsafe { String::from_utf8_unchecked(buf) }''')),
]
