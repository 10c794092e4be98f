#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
      "anchors": {"files": files.split(),
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

# ------------------------------------------------------------------ command line
p("C01", "Check mode never changes anything",
  "`air format --check` never creates, writes, renames or deletes a file and never prints source code on standard output, whatever paths, standard input, configuration or failures it meets. It only reports which files would change and exits.",
  "inputs configurations programs", "Every invocation with --check, over paths or stdin, and every path the program can take through discovery, formatting and error handling.",
  "Tests run --check on a handful of directories and look at one file; the property is about the absence of an effect on all paths, including error paths nothing exercises.",
  "crates/air/src/commands/format.rs crates/air/src/commands/format/paths.rs crates/air/src/commands/format/stdin.rs crates/workspace/src/discovery.rs crates/workspace/src/format.rs",
  [("mode dispatch", "crates/air/src/commands/format.rs"), ("check variants of the path and stdin commands", "crates/air/src/commands/format/{paths,stdin}.rs")],
  observe=["file system", "stdout"])
p("C02", "A file is only ever replaced by the complete formatted text of that file",
  "The formatter writes to disk only to replace a file whose formatted text differs from its content, and what it writes is the complete output of a successful format of the text just read from that same path. A file that cannot be read, parsed or formatted, or that is already formatted, is left untouched.",
  "inputs fault_sequences programs", "Every set of input paths, every read/parse/format failure, every file content.",
  "Tests compare a few files before and after; they cannot show that no other write exists or that no failing path reaches the write.",
  "crates/air/src/commands/format/paths.rs crates/workspace/src/format.rs crates/fs/src/lib.rs",
  [("the single write site", "crates/air/src/commands/format/paths.rs write_path"), ("changed/unchanged decision", "crates/workspace/src/format.rs")],
  observe=["file system"])
p("C03", "Every failure reaches the exit status",
  "The process exits with status 0 only if every requested file was processed without an error and, in check mode, nothing would change; it exits with 1 exactly when checking found something to reformat and no error occurred; every error (invalid arguments, unreadable or invalid configuration, discovery, read, parse, format, write, stdin or stdout errors) makes it exit with 255.",
  "inputs fault_sequences configurations", "All combinations of paths, modes and injected failures.",
  "Exit statuses are tested for four or five scenarios in tests that cannot even run without the network dependencies; error propagation has to hold on every path.",
  "crates/air/src/main.rs crates/air/src/lib.rs crates/air/src/status.rs crates/air/src/commands/format.rs crates/air/src/commands/format/paths.rs crates/air/src/commands/format/stdin.rs crates/air/src/commands/language_server.rs",
  [("status to exit code conversion", "crates/air/src/status.rs"), ("error collection", "crates/air/src/commands/format/paths.rs")],
  observe=["process exit code"])
p("C04", "Formatting standard input prints the formatted text or the input unchanged",
  "When formatting standard input, the only thing printed on standard output is either the complete formatted text or, if the file is excluded or already formatted, the input exactly as read; on any failure nothing is printed. In check mode an excluded file counts as unchanged.",
  "inputs configurations fault_sequences", "Every stdin content, supplied path, configuration, and failure.",
  "Editor integrations replace the buffer with stdout; a handful of tests cannot show that no path prints partial or foreign text.",
  "crates/air/src/commands/format/stdin.rs", [("stdin command", "crates/air/src/commands/format/stdin.rs")], observe=["stdout"])
p("C05", "Paths, stdin and the editor apply the same exclusion rules",
  "A file is formatted only if no user or default exclude pattern of its own configuration matches it or, when it was named directly (on the command line, for stdin or by an editor), any of its parent directories, and a default include pattern matches it (in the editor a document declared as R needs no include pattern), with the same decision for all three front ends and both in write and check mode. Only `--force` turns these filters off, and it turns off both.",
  "inputs configurations", "All paths, directory layouts, exclude settings and all three entry points.",
  "The three implementations are separate code; tests sample a few patterns in each and never compare them.",
  "crates/workspace/src/discovery.rs crates/air/src/commands/format.rs crates/air/src/commands/format/stdin.rs crates/lsp/src/file_patterns.rs crates/lsp/src/handlers_format.rs",
  [("pattern queries", "crates/workspace/src/discovery.rs any_*_matched_*"), ("stdin decision", "crates/air/src/commands/format/stdin.rs is_stdin_formattable"), ("editor decision", "crates/lsp/src/file_patterns.rs")],
  observe=["set of files formatted"])
p("C06", "Source with syntax errors is never formatted",
  "If the R parser reports any error or missing token anywhere in the source, every front end refuses to format it: the command line reports an error and leaves the file alone, and the language server returns no edits.",
  "inputs programs", "All source texts, all front ends.",
  "Tests use two malformed snippets; the property needs every route from text to formatted output to pass the error check.",
  "crates/air_r_parser/src/parse.rs crates/air_r_parser/src/treesitter.rs crates/workspace/src/format.rs crates/lsp/src/handlers_format.rs",
  [("error walk over the tree", "crates/air_r_parser/src/parse.rs"), ("refusals", "crates/workspace/src/format.rs, crates/lsp/src/handlers_format.rs")],
  observe=["format result"])

# ------------------------------------------------------------------ configuration
p("C07", "The closest configuration directory decides",
  "The settings used for a path are those registered for the deepest registered directory that is a component-wise ancestor of that path (or the path itself), and the defaults if there is none, for every history of directories being added, replaced and removed. Registering a directory again replaces its settings, and removing one never affects another.",
  "histories inputs", "All sequences of add/remove/clear/lookup over all sets of paths.",
  "Unit tests use up to four paths; ordering and prefix handling must hold for every history.",
  "crates/workspace/src/resolve.rs", [("sorted item list and reverse prefix search", "crates/workspace/src/resolve.rs")],
  state=[("items", "directories with settings, kept sorted and unique by path", "crates/workspace/src/resolve.rs")], observe=["resolved settings"])
p("C08", "Every configuration option takes effect, on its own setting only",
  "The value given for each option of the configuration file reaches the formatter as the setting of that name and influences no other setting; options not given take their default. No layer between the configuration file and the formatter drops an option or confuses two of them.",
  "configurations", "All combinations of option values.",
  "Tests set one or two options at a time, and only for the options they know.",
  "crates/workspace/src/toml_options.rs crates/workspace/src/settings.rs crates/air_r_formatter/src/context.rs crates/settings/src/line_ending.rs crates/settings/src/indent_style.rs crates/settings/src/indent_width.rs crates/settings/src/line_width.rs",
  [("conversion chain", "toml_options.rs into_settings -> settings.rs to_format_options -> context.rs with_*/accessors")], observe=["formatter options"])
p("C09", "Invalid configuration is rejected, not ignored",
  "An unknown key at any level of the configuration file, a value of the wrong type, an indent width outside 1-24 or a line width outside 1-320 makes loading the configuration fail. No value of these two widths outside its range can be constructed anywhere in the program.",
  "configurations inputs", "All configuration files and all integers.",
  "Tests try one or two boundary values; unknown keys are tested at one level.",
  "crates/workspace/src/toml_options.rs crates/settings/src/indent_width.rs crates/settings/src/line_width.rs",
  [("strict deserialisation", "crates/workspace/src/toml_options.rs"), ("checked constructors", "crates/settings/src/{indent_width,line_width}.rs")], observe=["configuration load result"])
p("C10", "No configuration file means the documented defaults",
  "With no configuration file, with an empty one, and with an empty format section, the formatter uses exactly the same settings, and these are the documented defaults: line width 80, indent width 2, spaces, automatic line endings, persistent line breaks respected, arrow assignment, default excludes and includes on, no skips, and the default table list.",
  "configurations", "All ways of obtaining default settings.",
  "The defaults are spelled in three places; no test compares them option by option.",
  "crates/workspace/src/settings.rs crates/workspace/src/toml_options.rs crates/settings/src docs/configuration.qmd artifacts/air.schema.json",
  [("two default paths", "settings.rs Default, toml_options.rs into_settings")], observe=["settings"])
p("C11", "Option values are spelled the same everywhere",
  "Each named option value is written and read under one spelling: the name accepted by the configuration file, the one parsed from text and (up to letter case) printed as text, the published schema and the user documentation agree value by value, and different names denote different behaviours.",
  "configurations", "All enumerated option values in all representations.",
  "No test compares the representations.",
  "crates/settings/src/assignment_style.rs crates/settings/src/indent_style.rs crates/settings/src/persistent_line_breaks.rs crates/workspace/src/settings/line_ending.rs artifacts/air.schema.json docs/configuration.qmd",
  [("name tables", "crates/settings/src/*.rs"), ("published schema", "artifacts/air.schema.json")], observe=["accepted spellings"])
p("C12", "Configuration files are found by one rule everywhere",
  "A directory's configuration file is `air.toml` if that is a file there and otherwise `.air.toml`; searching upwards returns the nearest directory that has either; and exactly these two names are what discovery, the language server's change detection, and its file watchers look for.",
  "inputs configurations", "All directory layouts and all front ends.",
  "Tests exercise precedence in one directory and never compare the watchers with the search.",
  "crates/workspace/src/toml.rs crates/workspace/src/discovery.rs crates/lsp/src/handlers.rs crates/lsp/src/workspaces.rs",
  [("lookup", "crates/workspace/src/toml.rs"), ("watchers", "crates/lsp/src/handlers.rs")], observe=["configuration file chosen"])
p("C13", "Skip and table names match exactly, whatever order they are listed in",
  "A function name is in the user's skip or table list exactly when that string was listed, regardless of the order, number or duplication of entries, including after the default table names are added. Adding the default names never removes a user's name.",
  "configurations inputs", "All lists of names and all queried names.",
  "Tests use lists of one to three names; lookup relies on an ordering invariant established elsewhere.",
  "crates/settings/src/sorted_strings.rs crates/settings/src/skip.rs crates/settings/src/table.rs crates/air_r_formatter/src/comments_ext.rs",
  [("sorted storage and binary search", "crates/settings/src/sorted_strings.rs")], state=[("sorted strings", "sorted by the order used for lookup", "crates/settings/src/sorted_strings.rs")], observe=["membership answers"])
p("C14", "Line ending options select the documented line ending",
  "`lf` and `crlf` select that line ending whatever the file contains, `native` selects the platform's, and only `auto` looks at the file, where the file's first line ending decides and a file without any stays on `\\n`. The choice made is the one the printed output uses.",
  "configurations inputs", "All option values and file contents.",
  "Each option value is tested on at most one file.",
  "crates/workspace/src/settings/line_ending.rs crates/line_ending/src/lib.rs crates/settings/src/line_ending.rs",
  [("option table", "crates/workspace/src/settings/line_ending.rs")], observe=["line endings of output"])
p("C15", "Exclude patterns follow gitignore rules relative to their configuration",
  "A path counts as excluded exactly when the last pattern matching it is an ignoring one (a negated `!` pattern never excludes); user patterns are interpreted relative to the directory of the configuration they come from, all listed patterns are used, and when parent directories are considered they are matched as directories and all of them are considered. An invalid pattern is an error.",
  "configurations inputs", "All pattern lists, all paths.",
  "Tests try a dozen patterns; whether every caller passes the right root, directory flag and pattern list is not tested.",
  "crates/workspace/src/file_patterns.rs crates/workspace/src/settings/exclude_patterns.rs crates/workspace/src/settings/default_exclude_patterns.rs crates/workspace/src/settings/default_include_patterns.rs crates/workspace/src/toml_options.rs",
  [("matchers", "crates/workspace/src/file_patterns.rs")], observe=["match results"])
p("C16", "Built-in patterns apply at any depth and are the documented ones",
  "The built-in exclude and include patterns match at any depth below any directory; the excluded set is exactly the documented one, and the included set is exactly the files with the extension `R` or `r`.",
  "inputs configurations", "All paths; all patterns in the built-in lists.",
  "Tests check sample file names, and the test meant to check the depth rule never evaluates its assertion.",
  "crates/workspace/src/settings/default_exclude_patterns.rs crates/workspace/src/settings/default_include_patterns.rs crates/fs/src/lib.rs docs/configuration.qmd",
  [("built-in lists", "crates/workspace/src/settings/default_{exclude,include}_patterns.rs")], observe=["match results"])
p("C17", "The published JSON schema accepts what the program accepts",
  "The published configuration schema lists exactly the sections and options the program accepts, with the same value names, the same numeric ranges, and unknown keys disallowed at every level where the program rejects them.",
  "configurations", "All options in the schema and in the program.",
  "The snapshot test that compares them cannot run without the network dependencies, and says nothing about ranges enforced in code.",
  "artifacts/air.schema.json crates/workspace/src/toml_options.rs crates/settings/src",
  [("schema", "artifacts/air.schema.json")], observe=["schema"])

# ------------------------------------------------------------------ text and directives
p("C18", "Only the documented comments are directives",
  "A comment is a formatting directive only if, after its leading `#` signs, it reads `fmt:` followed by `skip`, `skip file` or `table` (blanks around these words are ignored), and each of these spellings means its own directive; a first comment starting with `Generated by` skips the file. No other comment changes how code is formatted.",
  "inputs", "All comment texts.",
  "One unit test with a few spellings.",
  "crates/comments/src/directive.rs", [("directive parser", "crates/comments/src/directive.rs")], observe=["directive recognised"])
p("C19", "Suppressed code is copied verbatim",
  "Code under a skip directive, in a call to a function on the skip list, or in a file with a skip-file directive is emitted exactly from its source text; suppression is decided before any part of the node is formatted, from the node's own leading comments (and, for calls, the called name), and every kind of syntax node honours it.",
  "inputs configurations", "All syntax node kinds, all placements of directives.",
  "Snapshot tests cover some node kinds and cannot run here.",
  "crates/air_r_formatter/src/lib.rs crates/air_r_formatter/src/comments_ext.rs crates/air_r_formatter/src/r/auxiliary/root.rs crates/air_r_formatter/src/r/auxiliary/call.rs",
  [("suppression gate", "crates/air_r_formatter/src/lib.rs"), ("directive lookup", "crates/air_r_formatter/src/comments_ext.rs")], observe=["formatted text"])
p("C20", "Carriage returns never survive inside formatted text",
  "Text that can span lines and is copied from the source into the output (string contents, skipped files, text received from or edited by the editor) is converted to `\\n` line endings before it is used, so that the printer alone decides the line endings of the output.",
  "inputs histories", "All documents, edits, strings and skipped files.",
  "CRLF tests cover three snippets and cannot run here.",
  "crates/line_ending/src/lib.rs crates/air_r_formatter/src/string_content.rs crates/air_r_formatter/src/r/auxiliary/root.rs crates/lsp/src/documents.rs crates/aether_lsp_utils/src/proto/from_proto.rs",
  [("normalisation calls", "string_content.rs, root.rs, documents.rs, from_proto.rs")], observe=["document contents", "formatted text"])

# ------------------------------------------------------------------ language server
p("C21", "Every language server request gets exactly one answer of its own kind",
  "Each request the server receives is answered exactly once, on every path including handler failures, with the response type that belongs to that request; a failing handler yields an error response rather than silence or the answer to another request.",
  "programs inputs fault_sequences histories", "All request kinds, all handler outcomes.",
  "Client tests send a few requests each; a missing answer on an error path hangs the editor and no test takes those paths.",
  "crates/lsp/src/main_loop.rs crates/lsp/src/tower_lsp.rs", [("dispatch", "crates/lsp/src/main_loop.rs handle_event/respond"), ("front end", "crates/lsp/src/tower_lsp.rs")], observe=["JSON-RPC responses"])
p("C22", "Advertised capabilities and notifications are all handled",
  "Every capability the server advertises or registers is implemented and reaches its handler, each protocol method is forwarded to the handler of the same name with its own parameters, in the order received, and no notification the server subscribes to is dropped; the optional features it implements are advertised.",
  "histories inputs", "All protocol methods.",
  "Tests exercise formatting and open/close only.",
  "crates/lsp/src/tower_lsp.rs crates/lsp/src/main_loop.rs crates/lsp/src/handlers_state.rs crates/lsp/src/handlers.rs",
  [("forwarding", "crates/lsp/src/tower_lsp.rs"), ("dispatch", "crates/lsp/src/main_loop.rs")], observe=["handler invocations"])
p("C23", "One failing event never takes the language server down",
  "An error returned while handling any single event is logged and the server goes on to the next event; only a shutdown request ends the event loop, and it is answered before the loop ends.",
  "histories fault_sequences", "All sequences of events and failures.",
  "No test makes a handler fail and then continues the session.",
  "crates/lsp/src/main_loop.rs", [("event loop", "crates/lsp/src/main_loop.rs")], observe=["server liveness"])
p("C24", "After every edit the server's view of a document is consistent",
  "Whenever a document is opened or changed, its stored text, its line index, its syntax tree and its version are all derived from the same new text and updated together; edits are applied in the order sent, and a version older than the stored one is never applied.",
  "histories", "All open/change/close histories.",
  "Tests send single edits; staleness of one of four fields shows only in later requests.",
  "crates/lsp/src/documents.rs crates/lsp/src/handlers_state.rs crates/aether_lsp_utils/src/proto/from_proto.rs",
  [("document update", "crates/lsp/src/documents.rs"), ("edit application", "crates/aether_lsp_utils/src/proto/from_proto.rs")],
  state=[("document", "text, line index, parse, version", "crates/lsp/src/documents.rs")], observe=["document state"])
p("C25", "The language server returns no edits for excluded or unparsable documents",
  "A formatting or range-formatting request for a document that its workspace configuration excludes, or whose current text has a syntax error, is answered with no edits; both request kinds apply the same checks before any formatting is done, and they format with the settings resolved for that document.",
  "inputs histories configurations", "All documents and configurations, both request kinds.",
  "Tests check one excluded file for one request kind.",
  "crates/lsp/src/handlers_format.rs crates/lsp/src/file_patterns.rs", [("format handlers", "crates/lsp/src/handlers_format.rs")], observe=["text edits returned"])
p("C26", "A project's configuration file overrides editor settings",
  "When a configuration file applies to a document, the options used to format it come from that file alone; only without one are the editor's indent style, indent width and line width for that document merged over the defaults, each into its own option, and an absent editor value leaves the default in place.",
  "configurations histories", "All combinations of configuration files and client settings.",
  "Tests set one editor option.",
  "crates/lsp/src/workspaces.rs crates/lsp/src/settings.rs crates/lsp/src/settings_vsc.rs", [("precedence", "crates/lsp/src/workspaces.rs to_format_options"), ("merge", "crates/lsp/src/settings.rs")], observe=["formatter options"])
p("C27", "Workspace folders follow the client's open, close and reload events",
  "Opening a folder makes its configuration effective for the documents in it, closing it removes exactly that folder's configuration, and a created, changed or deleted configuration file in an open folder replaces the settings of every open folder it governs with what is then on disk, after which the open documents are told. Folder, close and change events identify a folder by the same path.",
  "histories configurations", "All sequences of folder and file events.",
  "Tests open one folder.",
  "crates/lsp/src/workspaces.rs crates/lsp/src/handlers_state.rs", [("resolver maintenance", "crates/lsp/src/workspaces.rs")], observe=["effective settings"])
p("C28", "Positions are always converted with the negotiated encoding",
  "The position encoding announced to the client is the one the server stores, UTF-8 if the client offers it and UTF-16 otherwise, and every conversion between editor positions and text offsets uses that encoding together with the line index of the current text.",
  "inputs configurations", "All client capability sets, all conversions.",
  "Tests use ASCII positions, for which the encodings agree.",
  "crates/lsp/src/handlers_state.rs crates/lsp/src/handlers_format.rs crates/aether_lsp_utils/src/proto", [("negotiation", "crates/lsp/src/handlers_state.rs initialize")], observe=["initialize result", "converted ranges"])
p("C29", "Client settings are requested and stored under the right keys",
  "Each client setting is requested under the key the editor extension declares for it, the answers are matched to the settings in the order they were requested, every requested answer is consumed exactly once, and each one updates the setting and document it was requested for.",
  "configurations histories", "All numbers of open documents, all client answers.",
  "Tests answer for one document with default values, so a swap is invisible.",
  "crates/lsp/src/handlers_state.rs crates/lsp/src/settings_vsc.rs crates/lsp/src/handlers.rs editors/code/package.json", [("request and update", "crates/lsp/src/handlers_state.rs update_config"), ("key tables", "crates/lsp/src/settings_vsc.rs")], observe=["configuration requests", "stored settings"])

# ------------------------------------------------------------------ syntax and formatter
p("C30", "Generated syntax code agrees with the grammar",
  "For every rule of the R grammar, the node type, its fields in order with their optionality, its syntax kind, its constructor, its shape check and its formatter agree with the grammar, and every kind is handled by exactly its own formatter.",
  "inputs programs", "All grammar rules and all syntax kinds.",
  "The code is generated once and edited by hand afterwards; snapshot tests cannot run here.",
  "xtask/codegen/r.ungram crates/air_r_syntax/src/generated crates/air_r_factory/src/generated crates/air_r_formatter/src/generated.rs xtask/codegen/src/r_kinds_src.rs",
  [("generated tables", "crates/air_r_{syntax,factory,formatter}/src/generated*")], observe=["syntax trees"])
p("C31", "Parsing builds a balanced tree that keeps every token and comment",
  "For every construct of the R grammar the parser opens and closes exactly one syntax node of the same kind, emits every token of the construct with the trivia before it, and recognises every construct the underlying parser can produce.",
  "inputs", "All parsed constructs.",
  "Snapshot tests sample constructs and cannot run here; a missed arm silently drops source text.",
  "crates/air_r_parser/src/parse.rs crates/air_r_parser/src/treesitter.rs", [("tree walk", "crates/air_r_parser/src/parse.rs"), ("kind table", "crates/air_r_parser/src/treesitter.rs")], observe=["syntax tree text"])
p("C32", "Formatting a construct emits all of its parts",
  "For every syntax construct, each successful formatting path emits every token and child of the construct exactly once (or replaces or removes it through an operation that accounts for it); no operator, delimiter, operand or argument can be left out or printed twice.",
  "inputs configurations", "All constructs, all layouts.",
  "Snapshot tests sample layouts and cannot run here; a rarely taken layout that omits a child loses code.",
  "crates/air_r_formatter/src/r", [("field formatting", "crates/air_r_formatter/src/r/auxiliary/*.rs")], observe=["formatted text"])
p("C33", "No comment is ever dropped",
  "Every comment is given exactly one placement, and every construct emits its leading, dangling and trailing comments on every successful path, including constructs that format some of them by hand.",
  "inputs", "All comment positions, all constructs.",
  "Snapshot tests sample positions and cannot run here.",
  "crates/air_r_formatter/src/comments.rs crates/air_r_formatter/src/lib.rs crates/air_r_formatter/src/r", [("placement", "crates/air_r_formatter/src/comments.rs"), ("emission", "crates/air_r_formatter/src/lib.rs")], observe=["formatted text"])
p("C34", "Assignment operators are rewritten only where the meaning is kept",
  "An assignment operator is only ever replaced according to the assignment-style option and only between `=` and `<-`: with `arrow` every `=` assignment is written `<-`; with `equal` a `<-` is written `=` exactly where `=` is accepted as an assignment (directly in a list of expressions or parentheses, below `?`, as the body of a function, branch or loop, or as an operand of an assignment or `?` which itself stands in such a place); with `preserve`, and for every other operator and position, the operator is printed as written.",
  "inputs configurations", "All operators, positions and option values.",
  "Snapshot tests sample contexts and cannot run here.",
  "crates/air_r_formatter/src/r/auxiliary/binary_expression.rs", [("operator rewriting", "crates/air_r_formatter/src/r/auxiliary/binary_expression.rs")], observe=["formatted text"])
p("C35", "Parallel file discovery loses and duplicates nothing",
  "Every entry the directory walk yields is either descended into, excluded, not included, or reported exactly once as a file or an error, whichever thread saw it and in whatever order threads finish; an unreadable entry is reported as an error and never stops the walk. Every given path is walked, and the walk has no depth or size limit.",
  "schedules inputs fault_sequences", "All thread interleavings, all directory trees.",
  "Tests walk small trees where one thread does all the work.",
  "crates/workspace/src/discovery.rs", [("visitor and its drop", "crates/workspace/src/discovery.rs")], state=[("shared results", "results of finished threads", "crates/workspace/src/discovery.rs")], observe=["discovered files"])
p("C36", "The Zed extension downloads and runs the released binary",
  "For each platform and architecture the extension asks for the archive name, archive type and inner binary path under which releases are published; a user-specified binary wins over one on the PATH, which wins over a downloaded one, and the user's arguments are used with any of them.",
  "configurations", "All platforms, architectures and user settings.",
  "Three of nine platform pairs are tested; precedence is not tested.",
  "editors/zed/src/lib.rs dist-workspace.toml", [("asset naming", "editors/zed/src/lib.rs")], observe=["asset name", "command started"])
p("C37", "The grammar reader reads a grammar as written or reports where it fails",
  "Reading a grammar always terminates; each operator of the grammar notation produces its own kind of rule, nothing of the input is skipped except blanks and comments, an undefined or doubly defined rule is an error, and every error found at a token carries that token's position.",
  "inputs", "All grammar texts.",
  "A single smoke test reads one valid grammar.",
  "crates/biome_ungrammar/src/lexer.rs crates/biome_ungrammar/src/parser.rs", [("lexer", "crates/biome_ungrammar/src/lexer.rs"), ("parser", "crates/biome_ungrammar/src/parser.rs")], observe=["parsed grammar or error"])
p("C38", "Only files with an R extension count as R files",
  "A path counts as an R file exactly when its extension is `R` or `r`; paths are made absolute before they are compared or searched, and shortened for display only when they lie below the working directory.",
  "inputs", "All paths.",
  "No test in this crate.",
  "crates/fs/src/lib.rs", [("path helpers", "crates/fs/src/lib.rs")], observe=["answers"])
p("C39", "The auxiliary tasks of the language server outlive their failures",
  "A failing or panicking background task, a failed log delivery or a full client never stops the server's auxiliary loops, and their results are always reported to the log.",
  "schedules fault_sequences", "All task outcomes.",
  "No test makes a background task fail.",
  "crates/lsp/src/main_loop.rs crates/lsp/src/logging.rs", [("auxiliary loop", "crates/lsp/src/main_loop.rs")], observe=["log messages"])

p("C63", "The edits of a formatting request give exactly the formatted text",
  "Applying the edits the server returns for a formatting request to the text they were computed for gives exactly the formatted text: for a document the complete formatted text, for a range the document with the span of the enclosing lines replaced by their formatted text. No line ending is doubled, left over or half removed, whatever line endings the document has and whatever `line-ending` is configured, and nothing is sent when nothing changed.",
  "inputs configurations", "All texts, ranges, line endings and configurations.", "Sample texts, all with `\\n` line endings.",
  "crates/lsp/src/handlers_format.rs crates/aether_lsp_utils/src/diff.rs crates/aether_lsp_utils/src/text_edit.rs crates/aether_lsp_utils/src/proto/to_proto.rs", [("difference to edits", "crates/aether_lsp_utils/src/diff.rs"), ("text edit building and joining", "crates/aether_lsp_utils/src/text_edit.rs"), ("conversion", "crates/aether_lsp_utils/src/proto/to_proto.rs")], observe=["text edits"])
# ------------------------------------------------------------------ not addressed by static analysis
p("C60", "Formatting is idempotent",
  "Formatting already formatted code changes nothing, for every R program and configuration.",
  "inputs configurations", "All R programs.", "Only sample programs are reformatted.",
  "crates/air_r_formatter/src", [("formatter", "crates/air_r_formatter/src")], observe=["formatted text"])
p("C61", "Formatting preserves the meaning of the program",
  "The formatted program parses to the same abstract syntax as the original up to the documented rewrites (braces added around bodies, assignment operators), for every R program.",
  "inputs configurations", "All R programs.", "Only sample programs.",
  "crates/air_r_formatter/src", [("formatter", "crates/air_r_formatter/src")], observe=["formatted text"])
p("C62", "Line ending conversion removes exactly the carriage returns before line feeds",
  "Converting a text to `\\n` line endings replaces each `\\r\\n` with `\\n` and changes nothing else, for every text, and leaves valid UTF-8.",
  "inputs", "All strings.", "Four sample strings.",
  "crates/line_ending/src/lib.rs", [("in-place compaction", "crates/line_ending/src/lib.rs normalize")], observe=["converted text"])
p("C64", "Applying client changes reproduces the client's text",
  "After any sequence of change notifications the server's text equals the client's text up to line endings.",
  "histories", "All edit histories.", "Single edits.",
  "crates/aether_lsp_utils/src/proto/from_proto.rs", [("edit application", "crates/aether_lsp_utils/src/proto/from_proto.rs")], observe=["document contents"])
p("C65", "Lines are broken to fit the configured width whenever possible",
  "No line that could be broken by the layout rules exceeds the configured line width.",
  "inputs configurations", "All programs and widths.", "Sample programs.",
  "crates/air_r_formatter/src", [("layout", "crates/air_r_formatter/src")], observe=["formatted text"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
