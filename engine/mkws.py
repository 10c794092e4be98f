"""Writes the generated cargo workspace in which the analysed crates type-check offline.

Sources are /repo's own (by [lib] path); dependencies that cannot be had offline are replaced by
signature-only stand-ins in engine/stubs."""
import os, re, shutil

V = "/verif"
REPO = os.environ.get("AIRFACTS_REPO", "/repo")
STUBS = V + "/engine/stubs"

STUB = {
    "biome_formatter": {}, "biome_line_index": {}, "biome_parser": {}, "biome_rowan": {},
    "biome_string_case": {}, "biome_text_size": {}, "biome_unicode_table": {},
    "tower-lsp": {}, "tree-sitter": {}, "tree-sitter-r": {}, "dissimilar": {}, "colored": {},
    "strum": {}, "struct-field-names-as-array": {}, "clap_complete": {}, "bpaf": {}, "git2": {}, "tracing": {},
}
#: name -> (root file, kind, dependencies)
MEMBERS = {
    "biome_ungrammar": ("crates/biome_ungrammar/src/lib.rs", "lib", []),
    "comments": ("crates/comments/src/lib.rs", "lib", []),
    "crates": ("crates/crates/src/lib.rs", "lib", []),
    "fs": ("crates/fs/src/lib.rs", "lib", ["path-absolutize"]),
    "settings": ("crates/settings/src/lib.rs", "lib", ["biome_formatter", "serde", "schemars"]),
    "line_ending": ("crates/line_ending/src/lib.rs", "lib", ["memchr", "settings"]),
    "air_r_syntax": ("crates/air_r_syntax/src/lib.rs", "lib", ["biome_rowan", "serde"]),
    "air_r_factory": ("crates/air_r_factory/src/lib.rs", "lib", ["air_r_syntax", "biome_rowan"]),
    "air_r_parser": ("crates/air_r_parser/src/lib.rs", "lib",
        ["air_r_factory", "air_r_syntax", "biome_parser", "biome_rowan", "biome_unicode_table", "serde", "tracing", "tree-sitter", "tree-sitter-r"]),
    "air_r_formatter": ("crates/air_r_formatter/src/lib.rs", "lib",
        ["air_r_syntax", "biome_formatter", "biome_rowan", "comments", "itertools", "line_ending", "settings", "tracing"]),
    "workspace": ("crates/workspace/src/lib.rs", "lib",
        ["air_r_formatter", "air_r_parser", "anyhow", "biome_formatter", "fs", "ignore", "line_ending", "rustc-hash", "schemars", "serde", "settings", "thiserror", "toml", "tracing"]),
    "aether_lsp_utils": ("crates/aether_lsp_utils/src/lib.rs", "lib",
        ["anyhow", "biome_line_index", "biome_text_size", "dissimilar", "itertools", "line_ending", "settings", "tower-lsp"]),
    "lsp": ("crates/lsp/src/lib.rs", "lib",
        ["aether_lsp_utils", "air_r_factory", "air_r_formatter", "air_r_parser", "air_r_syntax", "anyhow", "biome_formatter", "biome_line_index", "biome_rowan", "biome_text_size", "crates", "dissimilar", "futures", "itertools", "line_ending", "serde", "serde_json", "settings", "struct-field-names-as-array", "strum", "tokio", "tower-lsp", "tracing", "tracing-subscriber", "tree-sitter", "tree-sitter-r", "url", "uuid", "workspace"]),
    "air": ("crates/air/src/lib.rs", "libbin",
        ["anyhow", "clap", "clap_complete", "colored", "crates", "fs", "ignore", "itertools", "lsp", "thiserror", "tokio", "tracing", "tracing-subscriber", "workspace"]),
    "zed_air": ("editors/zed/src/lib.rs", "lib", ["zed_extension_api"]),
    "xtask": ("xtask/src/lib.rs", "lib", ["anyhow"]),
    "xtask_codegen": ("xtask/codegen/src/lib.rs", "lib", ["anyhow", "biome_string_case", "biome_ungrammar", "bpaf", "git2", "proc-macro2", "quote", "xtask"]),
}
OPTIONAL = {"settings": ("biome_formatter", "serde", "schemars"), "workspace": ("schemars",)}
EXTERNAL = {
    "anyhow": '"1.0.89"', "clap": '{ version = "4.5.20", features = ["derive", "wrap_help"] }',
    "futures": '"0.3.31"', "ignore": '"0.4.23"', "itertools": '"0.13.0"', "memchr": '"2.7.4"',
    "path-absolutize": '{ version = "3.1.1", features = ["once_cell_cache", "use_unix_paths_on_wasm"] }',
    "proc-macro2": '{ version = "1.0.86", features = ["span-locations"] }', "quote": '"1.0.37"',
    "rustc-hash": '"2.1.0"', "schemars": '"0.9.0"', "serde": '{ version = "1.0.215", features = ["derive"] }',
    "serde_json": '"1.0.132"', "thiserror": '"2.0.5"', "tokio": '{ version = "1.50.0", features = ["full"] }',
    "toml": '"0.8.19"', 
    "tracing-subscriber": '{ version = "0.3.19", features = ["ansi", "local-time"] }',
    "url": '"2.5.3"', "uuid": '{ version = "1.11.0", features = ["v4"] }', "zed_extension_api": '"0.2.0"',
}


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.isfile(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def version_of(name):
    """The version the crate's own manifest declares (observable through CARGO_PKG_VERSION)."""
    root = MEMBERS[name][0]
    man = os.path.join(REPO, root.split("/src/")[0], "Cargo.toml")
    try:
        m = re.search(r'^version\s*=\s*"([^"]+)"', open(man).read(), re.M)
        return m[1] if m else "0.0.0"
    except OSError:
        return "0.0.0"


def generate(ws):
    members = []
    for name, (root, kind, deps) in MEMBERS.items():
        if not os.path.isfile(os.path.join(REPO, root)):
            continue
        members.append(name)
        lines = ["[package]", f'name = "{name}"', f'version = "{version_of(name)}"',
                 f'edition = "{"2021" if name in ("zed_air", "xtask", "xtask_codegen") else "2024"}"', "autobins = false"]
        if name == "crates":
            lines.append(f'build = "{REPO}/crates/crates/build.rs"')
        lines += ["", "[lib]", f'path = "{REPO}/{root}"']
        if kind == "libbin":
            lines += ["", "[[bin]]", f'name = "{name}"', f'path = "{REPO}/{os.path.dirname(root)}/main.rs"']
        if name == "settings":
            lines += ["", "[features]", 'default = ["biome", "serde", "schemars"]', 'biome = ["dep:biome_formatter"]',
                      'serde = ["dep:serde"]', 'schemars = ["dep:schemars"]']
        elif name == "workspace":
            lines += ["", "[features]", 'default = ["schemars"]', 'schemars = ["dep:schemars"]']
        lines += ["", "[dependencies]"]
        for d in deps:
            dep_name = d
            if d in STUB:
                if not os.path.isdir(f"{STUBS}/{d}"):
                    continue
                spec = f'{{ path = "{STUBS}/{d}" }}'
            elif d in MEMBERS:
                spec = f'{{ path = "../{d}" }}'
            else:
                spec = EXTERNAL[d]
            opt = OPTIONAL.get(name, ())
            if d in opt:
                spec = spec if spec.startswith("{") else f"{{ version = {spec} }}"
                spec = spec[:-1].rstrip() + ", optional = true }"
            lines.append(f"{dep_name} = {spec}")
        if name == "crates":
            lines += ["", "[build-dependencies]", 'cargo_metadata = "0.20.0"']
        write(f"{ws}/{name}/Cargo.toml", "\n".join(lines) + "\n")
    write(f"{ws}/Cargo.toml", '[workspace]\nresolver = "2"\nmembers = [' + ", ".join(f'"{m}"' for m in members)
          + ']\n\n[profile.dev]\ndebug = 0\n\n[patch.crates-io]\n'
          + f'num_threads = {{ path = "{STUBS}/num_threads" }}\n')
    lock = f"{V}/engine/Cargo.ws.lock"
    if os.path.isfile(lock):
        shutil.copyfile(lock, f"{ws}/Cargo.lock")
    return members


if __name__ == "__main__":
    print(generate(V + "/.build/ws"))
