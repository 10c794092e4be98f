T = "crates/workspace/src/toml_options.rs"
J = "artifacts/air.schema.json"
IW = "crates/settings/src/indent_width.rs"
LW = "crates/settings/src/line_width.rs"
SS = "crates/settings/src/sorted_strings.rs"
LE = "crates/workspace/src/settings/line_ending.rs"
CASES = [
    ("file maximum", "bug", [(J, '"maximum": 24', '"maximum": 16')]),
    ("file property", "bug", [(J, '"default-table": {', '"default_table": {')]),
    ("file open", "bug", [(J, '          ]\n        }\n      },\n      "additionalProperties": false\n', '          ]\n        }\n      }\n')]),
    ("file type", "bug", [(J, '"persistent-line-breaks": {\n          "title": "Whether or not to respect persistent line breaks",', '"persistent-line-breaks": {\n          "enum": ["x"], "typo": "x",'), (J, '"description": "Air respects a small set', '"$ref": "#/$defs/LineWidth", "description": "Air respects a small set')]),
    ("file names", "bug", [(J, '"const": "native"', '"const": "platform"')]),
    ("unknown allowed", "bug", [(T, '#[serde(deny_unknown_fields, rename_all = "kebab-case")]', '#[serde(rename_all = "kebab-case")]')]),
    ("alias", "bug", [(T, "    pub skip: Option<Skip>", "    #[serde(alias = \"ignore\")]\n    pub skip: Option<Skip>")]),
    ("range attribute", "bug", [(LW, "range(min = 1, max = 320)", "range(min = 1, max = 400)")]),
    ("range code", "bug", [(IW, "const MAX: u8 = 24", "const MAX: u8 = 32")]),
    ("name renamed", "bug", [(LE, "    Native,", "    #[serde(rename = \"platform\")]\n    Native,")]),
    ("range const", "same", [(IW, "const MAX: u8 = 24", "const MAX: u8 = 20 + 4")]),
    ("reader let", "same", [(SS, "Ok(SortedStrings::new(value))", "let out = SortedStrings::new(value);\n        Ok(out)")]),
]
