//@conf_prelude
fn main() {
    // Every listed name is found, no other one is.
    let lists: [&[&str]; 5] = [
        &["tribble"],
        &["b", "A", "a", "B", "_x", ".y", "Z9", "z1", "É", "é", "aa", "Ab"],
        &["foo.bar", "foo_bar", "fooBar", "foo", "Foo", "FOO", "foo"],
        &["c10", "c2", "c1", "c"],
        &[],
    ];
    for names in lists {
        let quoted: Vec<String> = names.iter().map(|n| format!("{n:?}")).collect();
        let text = format!("[format]\nskip = [{0}]\ntable = [{0}]\n", quoted.join(", "));
        let s = read(&text).unwrap();
        for n in names {
            assert!(s.format.skip.as_ref().unwrap().contains(n), "skip {n} in {names:?}");
            assert!(s.format.table.as_ref().unwrap().contains(n), "table {n} in {names:?}");
        }
        for n in ["x", "AA", "fo", "fooo", "Tribble", "c3", "", "é "] {
            assert_eq!(s.format.skip.as_ref().unwrap().contains(n), names.contains(&n), "skip {n}");
            assert_eq!(s.format.table.as_ref().unwrap().contains(n), names.contains(&n) || ["tribble", "fcase"].contains(&n), "table {n}");
        }
        // the built-in names are there unless they are switched off
        for n in ["tribble", "fcase"] {
            assert!(s.format.table.as_ref().unwrap().contains(n), "built-in {n} with {names:?}");
            let off = read(&(text.clone() + "default-table = false\n")).unwrap();
            assert_eq!(off.format.table.unwrap().contains(n), names.contains(&n), "{n} switched off with {names:?}");
        }
    }
}
