D = "crates/workspace/src/discovery.rs"
I = "crates/settings/src/indent_width.rs"
L = "crates/settings/src/line_width.rs"
T = "crates/workspace/src/toml_options.rs"
M = "crates/workspace/src/toml.rs"
NZ = """        match NonZeroU8::try_from(value) {
            Ok(value) => IndentWidth::try_from(value),
            Err(_) => Err(IndentWidthFromIntError(value as usize)),
        }"""
DES = """        let value: u8 = serde::Deserialize::deserialize(deserializer)?;
        let indent_width = IndentWidth::try_from(value).map_err(serde::de::Error::custom)?;
        Ok(indent_width)"""
CASES = [
    ("off by one", "bug", [(I, "if value.get() <= Self::MAX", "if value.get() <= Self::MAX + 1")]),
    ("strict", "bug", [(I, "if value.get() <= Self::MAX", "if value.get() < Self::MAX")]),
    ("max", "bug", [(L, "const MAX: u16 = 320;", "const MAX: u16 = 400;")]),
    ("clamp", "bug", [(I, "            Err(IndentWidthFromIntError(value.get() as usize))\n", "            Ok(IndentWidth(NonZeroU8::new(Self::MAX).unwrap()))\n")]),
    ("truncate usize", "bug", [(I, "        u8::try_from(value)\n            .map_err(|_| IndentWidthFromIntError(value))?\n            .try_into()", "        (value as u8).try_into()")]),
    ("zero default", "bug", [(I, "Err(_) => Err(IndentWidthFromIntError(value as usize)),", "Err(_) => Ok(IndentWidth::default()),")]),
    ("deserialize u64 as", "bug", [(I, "let value: u8 = serde::Deserialize::deserialize(deserializer)?;\n        let indent_width = IndentWidth::try_from(value)", "let value: u64 = serde::Deserialize::deserialize(deserializer)?;\n        let indent_width = IndentWidth::try_from(value as u8)")]),
    ("deserialize default on error", "bug", [(I, DES, "        let value: u8 = serde::Deserialize::deserialize(deserializer)?;\n        Ok(IndentWidth::try_from(value).unwrap_or_default())")]),
    ("deserialize swallow", "bug", [(L, "let value: u16 = serde::Deserialize::deserialize(deserializer)?;", "let value: u16 = serde::Deserialize::deserialize(deserializer).unwrap_or(80);")]),
    ("derive deserialize", "bug", [(I, "derive(serde::Serialize))]\n#[cfg_attr(feature = \"schemars\", derive(schemars::JsonSchema))]\n#[cfg_attr(feature = \"schemars\", schemars(desc", "derive(serde::Serialize, serde::Deserialize))]\n#[cfg_attr(feature = \"schemars\", derive(schemars::JsonSchema))]\n#[cfg_attr(feature = \"schemars\", schemars(desc"), (I, "#[cfg(feature = \"serde\")]\nimpl<'de> serde::Deserialize<'de> for IndentWidth {", "#[cfg(any())]\nimpl<'de> serde::Deserialize<'de> for IndentWidth {")]),
    ("unchecked new", "bug", [(I, "    /// Return the numeric value", "    pub fn new_unchecked(value: NonZeroU8) -> Self {\n        Self(value)\n    }\n\n    /// Return the numeric value")]),
    ("saturating", "bug", [(I, "    /// Return the numeric value", "    pub fn double(self) -> Self {\n        Self(self.0.saturating_mul(NonZeroU8::new(2).unwrap()))\n    }\n\n    /// Return the numeric value")]),
    ("unknown format keys", "bug", [(T, "#[serde(deny_unknown_fields, rename_all = \"kebab-case\")]\n#[cfg_attr(feature = \"schemars\", derive(schemars::JsonSchema))]\npub struct FormatTomlOptions", "#[serde(rename_all = \"kebab-case\")]\n#[cfg_attr(feature = \"schemars\", derive(schemars::JsonSchema))]\npub struct FormatTomlOptions")]),
    ("unknown top keys", "bug", [(T, "#[serde(deny_unknown_fields, rename_all = \"kebab-case\")]\n#[cfg_attr(feature = \"schemars\", derive(schemars::JsonSchema))]\npub struct TomlOptions", "#[serde(rename_all = \"kebab-case\")]\n#[cfg_attr(feature = \"schemars\", derive(schemars::JsonSchema))]\npub struct TomlOptions")]),
    ("alias key", "bug", [(T, "    pub skip: Option<Skip>,", "    #[serde(alias = \"skips\")]\n    pub skip: Option<Skip>,")]),
    ("skipped key", "bug", [(T, "    pub skip: Option<Skip>,", "    #[serde(skip)]\n    pub skip: Option<Skip>,")]),
    ("lenient toml", "bug", [(M, "        .map_err(|err| ParseTomlError::Deserialize(path.as_ref().to_path_buf(), err))", "        .or_else(|_| Ok::<TomlOptions, ParseTomlError>(TomlOptions::default()))")]),
    ("missing file ok", "bug", [(M, "        .map_err(|err| ParseTomlError::Read(path.as_ref().to_path_buf(), err))?;", "        .unwrap_or_default();")]),
    ("lenient field", "bug", [(T, "    pub indent_width: Option<IndentWidth>,", "    #[serde(default, deserialize_with = \"lenient\")]\n    pub indent_width: Option<IndentWidth>,"), (T, "/// Options to configure code formatting.", "fn lenient<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Option<IndentWidth>, D::Error> {\n    Ok(<IndentWidth as serde::Deserialize>::deserialize(d).ok())\n}\n\n/// Options to configure code formatting.")]),
    ("match range", "same", [(I, NZ, "        match value {\n            1..=Self::MAX => Ok(IndentWidth(NonZeroU8::new(value).unwrap())),\n            _ => Err(IndentWidthFromIntError(value.into())),\n        }")]),
    ("flip", "same", [(I, """        if value.get() <= Self::MAX {
            Ok(IndentWidth(value))
        } else {
            Err(IndentWidthFromIntError(value.get() as usize))
        }""", """        if value.get() > Self::MAX {
            return Err(IndentWidthFromIntError(usize::from(value.get())));
        }
        Ok(Self(value))""")]),
    ("deserialize and_then", "same", [(I, DES, "        u8::deserialize(deserializer)\n            .and_then(|value| Self::try_from(value).map_err(serde::de::Error::custom))")]),
    ("deserialize map", "same", [(I, DES, "        let value = <u8 as serde::Deserialize>::deserialize(deserializer)?;\n        value.try_into().map_err(serde::de::Error::custom)")]),
    ("contains range", "same", [(I, "if value.get() <= Self::MAX {", "if (1..=Self::MAX).contains(&value.get()) {")]),
    ("checked u8", "same", [(I, "        u8::try_from(value)\n            .map_err(|_| IndentWidthFromIntError(value))?\n            .try_into()", "        match u8::try_from(value) {\n            Ok(value) => Self::try_from(value),\n            Err(_) => Err(IndentWidthFromIntError(value)),\n        }")]),
    ("map ctor", "same", [(I, "        if value.get() <= Self::MAX {\n            Ok(IndentWidth(value))\n        } else {\n            Err(IndentWidthFromIntError(value.get() as usize))\n        }", "        Some(value)\n            .filter(|value| value.get() <= Self::MAX)\n            .map(IndentWidth)\n            .ok_or(IndentWidthFromIntError(value.get() as usize))")]),
    ("toml match", "same", [(M, "        .map_err(|err| ParseTomlError::Read(path.as_ref().to_path_buf(), err))?;", "        .map_err(|error| ParseTomlError::Read(PathBuf::from(path.as_ref()), error));\n    let contents = match contents {\n        Ok(contents) => contents,\n        Err(error) => return Err(error),\n    };")]),
    ("discover swallow", "bug", [(D, "                let settings = parse_settings(&toml, ancestor)?;\n", "                let Ok(settings) = parse_settings(&toml, ancestor) else {\n                    break;\n                };\n")]),
    ("discover default", "bug", [(D, "                let settings = parse_settings(&toml, ancestor)?;\n", "                let settings = parse_settings(&toml, ancestor).unwrap_or_default();\n")]),
    ("discover match", "same", [(D, "                let settings = parse_settings(&toml, ancestor)?;\n", "                let settings = match parse_settings(&toml, ancestor) {\n                    Ok(settings) => settings,\n                    Err(error) => return Err(error),\n                };\n")]),
    ("settings inline", "same", [(D, "                let settings = parse_settings(&toml, ancestor)?;\n", "                let settings = parse_air_toml(&toml)?.into_settings(ancestor)?;\n")]),
]
