S = "crates/settings/src/sorted_strings.rs"
T = "crates/settings/src/table.rs"
K = "crates/settings/src/skip.rs"
E = "crates/air_r_formatter/src/comments_ext.rs"
NEW = """        strings.sort_unstable();
        Self(strings.into())"""
CON = """        self.0
            .binary_search_by(|probe| probe.as_str().cmp(name))
            .is_ok()"""
MERGE = """        let mut names = self.as_slice().to_owned();
        names.extend_from_slice(table.as_slice());
        Table::new(names)"""
CASES = [
    ("no sort", "bug", [(S, "        strings.sort_unstable();\n", "        strings.dedup();\n")]),
    ("sort by len", "bug", [(S, "strings.sort_unstable();", "strings.sort_unstable_by_key(|s| s.len());")]),
    ("sort lower", "bug", [(S, "strings.sort_unstable();", "strings.sort_unstable_by_key(|s| s.to_lowercase());")]),
    ("sort rev", "bug", [(S, "strings.sort_unstable();", "strings.sort_unstable_by(|a, b| b.cmp(a));")]),
    ("deser unsorted", "bug", [(S, "Ok(SortedStrings::new(value))", "Ok(SortedStrings(value.into()))")]),
    ("filter empty", "bug", [(S, "        strings.sort_unstable();", "        strings.retain(|s| s.len() > 1);\n        strings.sort_unstable();")]),
    ("truncate", "bug", [(S, "        strings.sort_unstable();", "        strings.truncate(64);\n        strings.sort_unstable();")]),
    ("dedup prefix", "bug", [(S, "        strings.sort_unstable();", "        strings.sort_unstable();\n        strings.dedup_by(|a, b| a.starts_with(b.as_str()));")]),
    ("contains prefix", "bug", [(S, CON, "        self.0.iter().any(|s| s.starts_with(name))")]),
    ("contains trimmed", "bug", [(S, "cmp(name)", "cmp(name.trim())")]),
    ("contains reversed", "bug", [(S, "probe.as_str().cmp(name)", "name.cmp(probe.as_str())")]),
    ("contains neg", "bug", [(S, "            .is_ok()\n", "            .is_err()\n")]),
    ("contains half", "bug", [(S, "        self.0\n            .binary_search_by", "        self.0[..self.0.len() / 2]\n            .binary_search_by")]),
    ("merge drops user", "bug", [(T, MERGE, "        let names = table.as_slice().to_owned();\n        let _ = self;\n        Table::new(names)")]),
    ("merge unsorted", "bug", [(T, "        Self(SortedStrings::new(names))", "        Self(SortedStrings::new(names[1..].to_vec()))")]),
    ("merge filter", "bug", [(T, "        let mut names = self.as_slice().to_owned();", "        let mut names: Vec<String> = self.as_slice().iter().filter(|n| !n.contains(':')).cloned().collect();")]),
    ("skip empty", "bug", [(K, "        self.0.contains(name)", "        !name.is_empty() && self.0.contains(name)")]),
    ("table lookup lower", "bug", [(T, "        self.0.contains(name)", "        self.0.contains(&name.to_lowercase())")]),
    ("fmt wrong list", "bug", [(E, "        Ok(skip.contains(node.text_trimmed()))", "        Ok(!skip.contains(node.text_trimmed()))")]),
    ("dedup", "same", [(S, NEW, "        strings.sort_unstable();\n        strings.dedup();\n        Self(strings.into())")]),
    ("sort stable", "same", [(S, NEW, "        strings.sort();\n        Self(Arc::from(strings))")]),
    ("binary_search", "same", [(S, CON, "        self.0.binary_search(&name.to_string()).is_ok()")]),
    ("bykey", "same", [(S, CON, "        self.0.binary_search_by_key(&name, |probe| probe.as_str()).is_ok()")]),
    ("any", "same", [(S, CON, "        self.0.iter().any(|probe| probe == name)")]),
    ("matches ok", "same", [(S, CON, "        let found = self.0.binary_search_by(|probe| probe.as_str().cmp(name));\n        matches!(found, Ok(_))")]),
    ("as_slice contains", "same", [(S, CON, "        self.as_slice()\n            .binary_search_by(|probe| probe.as_str().cmp(name))\n            .is_ok()")]),
    ("merge chain", "same", [(T, MERGE, "        Table::new(self.as_slice().iter().chain(table.as_slice()).cloned().collect())")]),
    ("merge concat", "same", [(T, MERGE, "        Table::new([self.as_slice(), table.as_slice()].concat())")]),
    ("merge extend", "same", [(T, MERGE, "        let mut names = table.as_slice().to_vec();\n        names.extend(self.as_slice().iter().cloned());\n        Table::new(names)")]),
    ("merge loop", "same", [(T, MERGE, "        let mut names = Vec::new();\n        for name in self.as_slice() {\n            names.push(name.clone());\n        }\n        for name in table.as_slice() {\n            names.push(name.clone());\n        }\n        Table::new(names)")]),
    ("deser map", "same", [(S, "        let value: Vec<String> = serde::Deserialize::deserialize(deserializer)?;\n        Ok(SortedStrings::new(value))", "        Vec::<String>::deserialize(deserializer).map(SortedStrings::new)")]),
    ("table deser map", "same", [(T, "        let value: SortedStrings = serde::Deserialize::deserialize(deserializer)?;\n        Ok(Table(value))", "        SortedStrings::deserialize(deserializer).map(Self)")]),
    ("fmt helper", "same", [(E, "        let node = node.name_token()?;\n        Ok(skip.contains(node.text_trimmed()))", "        node.name_token().map(|token| skip.contains(token.text_trimmed()))")]),
    ("sort helper", "same", [(S, NEW, "        Self::sorted(strings)\n    }\n\n    fn sorted(mut strings: Vec<String>) -> Self {\n        strings.sort_unstable_by(|a, b| a.cmp(b));\n        Self(strings.into())")]),
]
