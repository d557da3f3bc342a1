"""Copies /repo's crate to where the simulator builds it: mirror.py core|full|cli OUT.

core  what the image can build without the missing crate "spacemath": no src/main.rs, src/cli.yml,
      src/file, src/mesher, and top-level impls that name spacemath blanked; all else verbatim
full  every source file verbatim, with OUT/Cargo.toml pointing at the stand-in /verif/spacemath
cli   the program: src/main.rs as the root of a library crate "bugi_cli" over the full mirror, with a
      function appended that makes main callable

To core and full a module is added (core/calls.rs, full/calls.rs) that calls the crate's generic
functions, so that these too are compiled and instrumented with the code under test.

A file is written only when its content changed, so that cargo rebuilds only what changed."""
import os
import re
import sys

REPO = os.environ.get("BUGI_REPO", "/repo")
KIND, OUT = sys.argv[1], sys.argv[2]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEFT_OUT = ("src/main.rs", "src/cli.yml", "src/file/", "src/mesher/")


def without_spacemath_impls(text):
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        if re.match(r"impl\b.*\bspacemath::.*\{$", lines[i]):
            end = next((j for j in range(i + 1, len(lines)) if lines[j] and not lines[j][0].isspace()), None)
            if end is not None and lines[end] == "}":
                lines[i : end + 1] = [""] * (end + 1 - i)
                i = end
        i += 1
    return "\n".join(lines)


MAIN = b"""
pub fn sim_main() -> bool {
    std::process::Termination::report(main()) == std::process::ExitCode::SUCCESS
}
"""
wanted = {}
for top, _, names in os.walk(f"{REPO}/src"):
    for n in names:
        path = os.path.join(top, n)
        rel = os.path.relpath(path, REPO)
        data = open(path, "rb").read()
        if KIND == "core":
            if rel.startswith(LEFT_OUT):
                continue
            if rel.endswith(".rs"):
                text = data.decode("utf-8", "surrogateescape")
                if rel == "src/lib.rs":
                    text = re.sub(r"(?m)^(pub )?mod (file|mesher);$", "", text)
                data = without_spacemath_impls(text).encode("utf-8", "surrogateescape")
        if KIND == "cli" and rel in ("src/lib.rs", "src/main.rs"):
            if rel == "src/main.rs":
                wanted["src/lib.rs"] = data + MAIN
            continue
        wanted[rel] = data
if KIND != "cli":
    wanted["src/lib.rs"] += b"\npub mod sim_calls;\n"
    wanted["src/sim_calls.rs"] = open(f"{HERE}/{KIND}/calls.rs", "rb").read()
manifest = open(f"{REPO}/Cargo.toml").read()
if KIND == "core":
    manifest = re.sub(r"(?m)^spacemath *=.*$", "", manifest)
else:
    manifest = re.sub(r"(?m)^spacemath *=.*$", f'spacemath = {{ path = "{HERE}/spacemath" }}', manifest)
manifest = re.sub(r"(?ms)^\[profile\..*", "", manifest)  # profiles come from the harness crate
if KIND == "cli":
    manifest = re.sub(r'(?m)^name *=.*$', 'name = "bugi_cli"', manifest, count=1)
    manifest = re.sub(r"(?m)^\[dependencies\]$", '[dependencies]\nbugi = { path = "../full" }', manifest)
wanted["Cargo.toml"] = manifest.encode()

for rel, data in wanted.items():
    path = os.path.join(OUT, rel)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path, "rb").read() != data:
        with open(path, "wb") as f:
            f.write(data)
for top, _, names in os.walk(f"{OUT}/src"):
    for n in names:
        path = os.path.join(top, n)
        if os.path.relpath(path, OUT) not in wanted:
            os.remove(path)
