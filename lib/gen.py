"""Builds the harness crates from /repo's current sources.

A unit is one crate: whole source files of the repository, copied with a few textual substitutions
(std paths to the stand-in vstd, size constants scaled down), a crate root, and harness modules that
are appended as children of the file they need the private items of. Nothing is written that did not
change, so that cargo rebuilds no more than it must."""

import os
import re
import shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

STD = [
    (r"(?<![\w:$])(?:::)?std::(?!(?:sync::atomic|marker|fmt::)\b)", "vstd::"),
    (r"(?<![\w!])format!\s*\(", "vstd::noformat!("),
]


LINTS = [(r"(?m)^\s*#!\[(?:deny|warn|forbid|allow|doc|cfg_attr)\b[^\n]*\]\s*$", ""), (r"#\[(?:tracing::)?instrument(?:\([^\]]*\))?\]", "")]


class GenError(Exception):
    """The source cannot be laid out as a harness crate."""


class F:
    """One source file. subs: (pattern, replacement[, required]). harness: files under /verif/harness to
    append as child modules. cut: top-level items to leave out, as patterns of their first line."""

    def __init__(self, src, subs=(), harness=(), cut=(), std=True, prepend="", append="", sync=False, keep=()):
        self.src, self.subs, self.harness = src, list(subs), [harness] if isinstance(harness, str) else list(harness)
        self.cut, self.std, self.prepend, self.append, self.keep = cut, std, prepend, append, keep
        self.sync = sync  # take out async and .await


UNITS = {}


class Unit:
    def __init__(self, name, files, lib, deps=None, shims=("vk", "vstd"), consts=None, features="", edition="2021",
                 subs=()):
        self.name, self.files, self.lib, self.deps = name, files, lib, deps or {}
        self.shims, self.consts, self.features, self.edition = list(shims), consts or {}, features, edition
        self.subs = list(subs)
        UNITS[name] = self

    @property
    def dir(self):
        return os.path.join(BUILD, "gen", self.name)


def item_at(text, m):
    """The extent of the item whose first line m matches, attributes and docs above included."""
    mark = "\0"
    rest = cut_items(text[:m.start()] + mark + text[m.start():], [r"\0"], "")
    # what cut_items took out is what differs
    n = len(text) + 1 - len(rest)
    a = 0
    while a < len(rest) and rest[a] == text[a]:
        a += 1
    a = min(a, m.start())
    for s in range(a, -1, -1):
        if text[:s] + text[s + n - 1:] == rest:
            return s, s + n - 1
    raise GenError("an item that cannot be taken out")


def keep_items(text, pats, src):
    """Only the items that match, in the order of the source."""
    got = []
    for p in pats:
        ms = list(re.finditer(rf"(?m)^[ \t]*{p}", text))
        if not ms:
            raise GenError(f"{src}: no item matches {p!r}")
        for m in ms:
            got.append(item_at(text, m))
    return "\n".join(text[a:b] for a, b in sorted(set(got)))


def cut_items(text, pats, src):
    """Remove items that start at a line matching a pattern: up to the line that closes their braces (or a
    `;` at depth 0), with the attributes and doc comments directly above."""
    for p in pats:
        while True:
            m = re.search(rf"(?m)^[ \t]*{p}", text)
            if not m:
                break
            start = m.start()
            while True:  # attributes and docs above
                prev = text.rfind("\n", 0, start - 1) + 1 if start > 0 else 0
                line = text[prev:start].strip()
                if start > 0 and (line.startswith("///") or line.startswith("#[")):
                    start = prev
                else:
                    break
            i, depth = m.end(), 0
            i = m.start()
            n = len(text)
            while i < n:
                c = text[i]
                if text.startswith("//", i):
                    i = text.find("\n", i)
                    continue
                if c == '"':
                    i += 1
                    while text[i] != '"':
                        i += 2 if text[i] == "\\" else 1
                elif c == "'" and re.match(r"'(\\.|[^\\'])'", text[i:i + 4]):
                    i += len(re.match(r"'(\\.|[^\\'])'", text[i:i + 4]).group(0)) - 1
                elif c in "({[":
                    depth += 1
                elif c in ")}]":
                    depth -= 1
                    if depth == 0 and c == "}":
                        break
                elif c == ";" and depth == 0:
                    break
                i += 1
            text = text[:start] + text[i + 1:]
    return text


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path, encoding="utf-8") as f:
            if f.read() == text:
                return
    except FileNotFoundError:
        pass
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def read(path):
    with open(path, encoding="utf-8") as f:
        return f.read()


def source(unit, f):
    path = os.path.join(REPO, f.src)
    if not os.path.isfile(path):
        raise GenError(f"{f.src}: not there")
    text = read(path)
    text = cut_items(text, f.cut, f.src)
    if f.keep:
        text = keep_items(text, f.keep, f.src)
    for s in LINTS + (STD if f.std else []) + unit.subs + f.subs:
        text, n = re.subn(s[0], s[1], text)
        if n == 0 and len(s) > 2 and s[2]:
            raise GenError(f"{f.src}: nothing matches {s[0]!r}")
    if f.sync:
        text = re.sub(r"\basync fn\b", "fn", re.sub(r"\s*\.await\b", "", text))
    text = re.sub(r"(?m)^//!", "//", text)
    text = f.prepend + text + f.append
    for h in f.harness:
        text += f'\n#[path = "{VERIF}/harness/{h}.rs"]\npub mod vk_{h};\n'
    return text


def generate(name):
    u = UNITS[name]
    wanted = set()

    def out(rel, text):
        p = os.path.join(u.dir, rel)
        wanted.add(p)
        put(p, text)

    deps = "".join(f"{k} = {v}\n" for k, v in u.deps.items())
    for s in u.shims:
        src = os.path.join(VERIF, "shims", s)
        for d, _, fs in os.walk(src):
            for fn in fs:
                if fn.endswith((".rs", ".toml")):
                    rel = os.path.relpath(os.path.join(d, fn), src)
                    t = read(os.path.join(d, fn))
                    t = re.sub(r"/\*([A-Z0-9_]+)\*/(\w+)", lambda m: str(u.consts.get(m.group(1), m.group(2))), t)
                    out(f"shims/{s}/{rel}", t)
        deps += f'{s} = {{ path = "shims/{s}" }}\n'
    out("Cargo.toml", f"""[package]
name = "u-{name}"
version = "0.0.0"
edition = "{u.edition}"
publish = false
[workspace]
exclude = ["shims"]
[lib]
path = "src/lib.rs"
[[bin]]
name = "replay"
path = "src/main.rs"
[lints.rust]
unexpected_cfgs = "allow"
[profile.dev]
debug = 0
[profile.release]
debug = 0
{u.features}
[dependencies]
{deps}
""")
    harnesses = []
    out_files = dict(u.files)
    for rel, f in out_files.items():
        text = source(u, f)
        out(f"src/{rel}", text)
    lib = u.lib
    out("src/lib.rs", "#![allow(warnings, clippy::all)]\n#![recursion_limit = \"256\"]\n" + lib)
    # Every harness by its path, for the native replay.
    mods = {}
    for rel, f in out_files.items():
        for h in f.harness:
            mods[h] = rel[:-3].replace("/mod", "").replace("/", "::")
    arms = ""
    for h, at in mods.items():
        for fn in harness_names(h):
            p = f"{at}::vk_{h}::{fn}"
            harnesses.append((fn, p))
            arms += f'        "{fn}" => u::{p}(),\n'
    for m in re.finditer(r'#\[path = "[^"]*/harness/(\w+)\.rs"\]\s*pub mod (\w+);', lib):
        for fn in harness_names(m.group(1)):
            p = f"{m.group(2)}::{fn}"
            harnesses.append((fn, p))
            arms += f'        "{fn}" => u::{p}(),\n'
    out("src/main.rs", f"""use u_{name} as u;
fn main() {{
    match std::env::args().nth(1).unwrap_or_default().as_str() {{
{arms}        x => panic!("no harness {{x}}"),
    }}
}}
""")
    for top in ("src", "shims"):
        for d, _, fs in os.walk(os.path.join(u.dir, top)):
            for fn in fs:
                p = os.path.join(d, fn)
                if p not in wanted and not fn.endswith(".lock"):
                    os.remove(p)
    # One lock file for all, so that nothing is resolved anew.
    lock = os.path.join(VERIF, "locks", f"{name}.lock")
    if os.path.isfile(lock):
        put(os.path.join(u.dir, "Cargo.lock"), read(lock))
    return dict(harnesses)


def harness_names(h):
    return re.findall(r"(?m)^\s*#\[cfg_attr\(kani, kani::proof\)\]\s*(?:#\[[^\n]*\]\s*)*pub fn (\w+)\(",
                      read(os.path.join(VERIF, "harness", f"{h}.rs")))
