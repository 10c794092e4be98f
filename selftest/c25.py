L = "crates/lsp/src/handlers_format.rs"
RANGE = "\n    let range = from_proto"
HE = """    if doc.parse.has_error() {
        // Refuse to format in the face of parse errors, but only log a warning
        // rather than returning an LSP error, as toast notifications here are distracting.
        tracing::warn!("Failed to format {uri}. Can't format when there are parse errors.");
        return Ok(None);
    }
"""
EX = """    match uri.to_file_path() {
        Ok(path) => {
            // TODO: `language_id` should be a property of the `Document` stored in `did_open()`
            let language_id = String::from("r");
            let settings = workspace_settings.settings();

            if is_document_excluded_from_formatting(&path, &settings.format, language_id) {
                return Ok(None);
            }
        }
        Err(_) => {
            // `untitled:Untitled-1` with an 'r' `language_id` comes through here, as an example
            tracing::trace!("Can't convert uri to file path, assuming we can format it: {uri}")
        }
    }

"""
WS = "    let workspace_settings = lsp_state.workspace_document_settings(uri);\n\n"
CHECKED = EX + HE
FN = "// From biome_formatter\n"
OPT = "    let format_options = document_format_options(&workspace_settings, doc);\n\n"
OWN = "    let format_options = workspace_settings.to_format_options(&doc.contents, &doc.settings);\n\n"
CASES = [
    ("range no exclusion", "bug", [(L, CHECKED + RANGE, HE + RANGE)]),
    ("range exclusion only when whole file", "bug", [(L, CHECKED + RANGE, CHECKED.replace("            if is_document_excluded", "            if params.range.start.line == 0 && is_document_excluded") + RANGE)]),
    ("range no parse", "bug", [(L, CHECKED + RANGE, EX + RANGE)]),
    ("formatted excluded in check", "bug", [(L, HE + "\n" + OPT, HE.replace("doc.parse.has_error()", "doc.parse.has_error() && doc.version.is_some()") + "\n" + OPT)]),
    ("default editor settings", "bug", [(L, OPT + "    match", OWN.replace("&doc.settings", "&Default::default()") + "    match")]),
    ("range default editor settings", "bug", [(L, OPT + "    let format_info", OWN.replace("&doc.settings", "&Default::default()") + "    let format_info")]),
    ("options for empty text", "bug", [(L, OPT + "    let format_info", OWN.replace("&doc.contents", '""') + "    let format_info")]),
    ("options of the file settings", "bug", [(L, OPT + "    match", "    let format_options = workspace_settings.settings().format.to_format_options(&doc.contents);\n\n    match")]),
    ("other excluded direction", "bug", [(L, CHECKED + RANGE, CHECKED.replace("            if is_document", "            if !is_document") + RANGE)]),
    ("helper check", "same", [(L, EX + HE + "\n" + OPT, "    if excluded(uri, &workspace_settings) {\n        return Ok(None);\n    }\n\n" + HE + "\n" + OPT), (L, FN, """fn excluded(uri: &lsp_types::Url, workspace_settings: &crate::workspaces::WorkspaceSettings<'_>) -> bool {
    let Ok(path) = uri.to_file_path() else {
        return false;
    };
    is_document_excluded_from_formatting(&path, &workspace_settings.settings().format, String::from("r"))
}

""" + FN)]),
    ("parse first", "same", [(L, CHECKED + RANGE, HE + "\n" + EX + RANGE)]),
    ("options early", "same", [(L, CHECKED + "\n" + OPT, OPT + CHECKED)]),
    ("if let", "same", [(L, CHECKED + "\n" + OPT, EX.replace("match uri.to_file_path() {\n        Ok(path) => {", "if let Ok(path) = uri.to_file_path() {").split("        }\n        Err")[0].replace("                return Ok(None);\n            }\n", "                return Ok(None);\n            }\n    }\n\n") + HE + "\n" + OPT)]),
    ("no warning", "same", [(L, CHECKED + RANGE, EX + "    if doc.parse.has_error() {\n        return Ok(None);\n    }\n" + RANGE)]),
    ("helper for both", "same", [(L, "    let doc = state.get_document_or_error(uri)?;\n\n" + WS + CHECKED + RANGE, "    let doc = state.get_document_or_error(uri)?;\n\n" + WS + "    if !ready(uri, doc, lsp_state) {\n        return Ok(None);\n    }\n" + RANGE), (L, "    let doc = state.get_document_or_error(uri)?;\n\n" + WS + CHECKED + "\n" + OPT, "    let doc = state.get_document_or_error(uri)?;\n\n" + WS + "    if !ready(uri, doc, lsp_state) {\n        return Ok(None);\n    }\n" + OPT), (L, FN, """fn ready(uri: &lsp_types::Url, doc: &crate::documents::Document, lsp_state: &LspState) -> bool {
    let excluded = uri.to_file_path().ok().is_some_and(|path| {
        let workspace_settings = lsp_state.workspace_document_settings(uri);
        is_document_excluded_from_formatting(&path, &workspace_settings.settings().format, "r".to_string())
    });
    !excluded && !doc.parse.has_error()
}

""" + FN)]),
]
