"""The language server's formatting requests as tables: every outcome of a handler with the calls it made."""
from terms import *
from cases import *
import cli

HANDLERS = {"textDocument/formatting": "lsp::handlers_format::document_formatting", "textDocument/rangeFormatting": "lsp::handlers_format::document_range_formatting"}
CRATES = ("lsp", "workspace", "settings", "line_ending", "air_r_formatter", "air_r_parser")
# calls which turn a tree into formatted text
FORMATTING = ("format::format_source_with_parse", "format::format_source", "air_r_formatter::format_node", "biome_formatter::format_node", "biome_formatter::format_sub_tree", "biome_formatter::format_range", "air_r_formatter::format_sub_tree", "air_r_formatter::format_range", "biome_formatter::format")
SETTINGS = "LspState::workspace_document_settings"


class Request:
    def __init__(self, R, fn, more=()):
        self.R = R
        R.fn(fn)
        self.where = R.where(fn)
        I = R.interp()
        hide = ("air_r_parser", "air_r_formatter", "workspace::", "lsp::main_loop::LspState::workspace_document_settings", "lsp::workspaces::", "<lsp::workspaces", "lsp::handlers_format::find_deepest_enclosing_logical_lines") + tuple(more)
        I.opaque_fn = lambda p, res: any(x and x.startswith(hide) for x in (p, res))
        self.I = I
        self.outs = split_res(I, R.summary(fn, "params lsp_state state", I))
        self.uri = mk("fld", mk("fld", mk("arg", "params"), "text_document"), "uri")

    def formatting(self, s):
        return [e for e in s.eff if e.tag == "eff" and e.a[0] in FORMATTING]

    def edits(self, k, v):
        """does an outcome answer with edits; None unknown"""
        if k == "Err":
            return False
        if v.tag == "adt" and v.a[1] in ("Some", "None"):
            return v.a[1] == "Some"
        return None

    @staticmethod
    def trees(e):
        """parses (terms of type Parse) the tree formatted by a call comes from"""
        if e.a[0] == "format::format_source_with_parse":
            return {cli.strip(e.a[1][1])}
        out = set()
        for x in e.a[1]:
            for u in subterms(x):
                if cli.fname(u) in ("Parse::syntax", "Parse::tree"):
                    out.add(cli.strip(u.a[1][0]))
        return out


def error_free(conds, parse):
    """do the conditions say that the parse has no error; None when they do not say"""
    for t, c in conds.items():
        if cli.fname(t) == "Parse::has_error" and cli.strip(t.a[1][0]) is parse:
            return truth(conds, t) is False
        if cli.fname(t) == "Parse::error" and cli.strip(t.a[1][0]) is parse:
            return isvar(conds, t, "None")
        if t.tag == "fld" and t.a[1] == "error" and t.a[0] is parse:
            return isvar(conds, t, "None")
    return None


def asked(s, parse):
    """was the parse asked for errors at all"""
    return any(cli.fname(u) in ("Parse::has_error", "Parse::error", "Parse::into_error", "Parse::into_result") for e in s.eff for u in subterms(e)) or any(cli.fname(u) in ("Parse::has_error", "Parse::error") for t in s.conds for u in subterms(t))


def settings_of(t):
    """the document whose settings a term of type Settings are, or None"""
    t = cli.strip(t)
    if cli.fname(t) == "WorkspaceSettings::settings" and cli.fname(cli.strip(args(t)[0])) == SETTINGS:
        return cli.strip(args(cli.strip(args(t)[0]))[1])
    return None
