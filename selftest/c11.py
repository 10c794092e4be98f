A = "crates/settings/src/assignment_style.rs"
I = "crates/settings/src/indent_style.rs"
L = "crates/workspace/src/settings/line_ending.rs"
CASES = [
    ("alias in text", "bug", [(A, '"equal" => Ok(Self::Equal)', '"equal" | "=" => Ok(Self::Equal)')]),
    ("typo", "bug", [(A, '"preserve" => Ok', '"preserved" => Ok')]),
    ("swap", "bug", [(I, '"tab" => Ok(Self::Tab)', '"tabs" => Ok(Self::Tab)')]),
    ("trim", "bug", [(A, "match s {", "match s.trim() {")]),
    ("case", "bug", [(A, "match s {", "match s.to_lowercase().as_str() {")]),
    ("serde rename", "bug", [(A, "    Equal,\n", '    #[cfg_attr(feature = "serde", serde(rename = "equals"))]\n    Equal,\n')]),
    ("serde alias", "bug", [(A, "    Equal,\n", '    #[cfg_attr(feature = "serde", serde(alias = "="))]\n    Equal,\n')]),
    ("kebab to snake", "same", [(A, 'rename_all = "kebab-case"', 'rename_all = "snake_case"')]),
    ("kebab to camel", "same", [(A, 'rename_all = "kebab-case"', 'rename_all = "camelCase"')]),
    ("pascal", "bug", [(A, 'rename_all = "kebab-case"', 'rename_all = "PascalCase"')]),
    ("display", "bug", [(A, 'std::write!(f, "Preserve")', 'std::write!(f, "Keep")')]),
    ("display swap", "bug", [(I, 'std::write!(f, "Space")', 'std::write!(f, "Tab")')]),
    ("display lower", "same", [(I, 'std::write!(f, "Space")', 'f.write_str("Space")')]),
    ("line ending rename", "bug", [(L, 'rename_all = "kebab-case"', 'rename_all = "UPPERCASE"')]),
    ("if chain", "same", [(A, """        match s {
            "arrow" => Ok(Self::Arrow),
            "equal" => Ok(Self::Equal),
            "preserve" => Ok(Self::Preserve),
            _ => Err("Unsupported value for this option"),
        }""", """        if s == "arrow" {
            return Ok(Self::Arrow);
        }
        let style = if s == "equal" {
            Self::Equal
        } else if s == "preserve" {
            Self::Preserve
        } else {
            return Err("Unsupported value for this option");
        };
        Ok(style)""")]),
    ("table", "same", [(A, """        match s {
            "arrow" => Ok(Self::Arrow),
            "equal" => Ok(Self::Equal),
            "preserve" => Ok(Self::Preserve),
            _ => Err("Unsupported value for this option"),
        }""", """        const STYLES: [(&str, AssignmentStyle); 3] = [
            ("arrow", AssignmentStyle::Arrow),
            ("equal", AssignmentStyle::Equal),
            ("preserve", AssignmentStyle::Preserve),
        ];
        STYLES
            .iter()
            .find(|(name, _)| *name == s)
            .map(|(_, style)| *style)
            .ok_or("Unsupported value for this option")""")]),
    ("display via name", "same", [(A, """        match self {
            AssignmentStyle::Arrow => std::write!(f, "Arrow"),
            AssignmentStyle::Equal => std::write!(f, "Equal"),
            AssignmentStyle::Preserve => std::write!(f, "Preserve"),
        }""", """        let name = match self {
            AssignmentStyle::Arrow => "Arrow",
            AssignmentStyle::Equal => "Equal",
            AssignmentStyle::Preserve => "Preserve",
        };
        f.write_str(name)""")]),
    ("schema file", "bug", [("artifacts/air.schema.json", '"const": "preserve"', '"const": "keep"')]),
]
