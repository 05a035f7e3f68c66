#!/usr/bin/env python3
"""Generate the analysis workspace: manifests derived from REPO's, sources used in place from REPO.

    mkws.py REPO OUT STUBS

malachite (path ../malachite, absent), rocksdb (git, unreachable) and pre-commit (a git-hook installer) are
replaced by the type-level stand-ins in STUBS; nothing else about the build changes."""
import os, re, sys, glob

def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)

def link(src, dst):
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if os.path.islink(dst):
        if os.readlink(dst) == src:
            return
        os.unlink(dst)
    os.symlink(src, dst)

def conv(text, stubs):
    out = []
    for l in text.splitlines():
        m = re.match(r'^informalsystems-malachitebft-([\w-]+)\s*=', l)
        if m:
            l = f'informalsystems-malachitebft-{m.group(1)} = {{ path = "{stubs}/{m.group(1)}" }}'
        elif re.match(r'^rocksdb\s*=', l):
            l = f'rocksdb = {{ path = "{stubs}/rocksdb", features = ["multi-threaded-cf", "jemalloc"] }}'
        elif re.match(r'^pre-commit\s*=', l):
            l = f'pre-commit = {{ path = "{stubs}/pre-commit" }}'
        elif re.match(r'^moka\s*=', l) and '"sync"' not in l:
            l = l.replace('features = ["future"]', 'features = ["future", "sync"]')
        out.append(l)
    return "\n".join(out) + "\n"

def main(repo, out, stubs):
    root = conv(open(f"{repo}/Cargo.toml").read(), stubs)
    root = root.replace('[package]\n', '[package]\nautobins = false\nautotests = false\nautoexamples = false\nautobenches = false\n', 1)
    root = re.sub(r'path = "src/lib.rs"', f'path = "{repo}/src/lib.rs"', root)
    root = re.sub(r'(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)', '', root)
    bins = [("snapchain", f"{repo}/src/main.rs")]
    for b in sorted(glob.glob(f"{repo}/src/bin/*.rs")):
        n = os.path.basename(b)[:-3]
        if n != "dump_wal":   # diagnostic printer for malachite's own WAL format
            bins.append((n, b))
    for n, p in bins:
        root += f'\n[[bin]]\nname = "{n}"\npath = "{p}"\n'
    root = root.replace('members = ["proto", "cli"]', 'members = ["proto", "cli"]\nexclude = ["stubs"]')
    put(f"{out}/Cargo.toml", root)
    proto = conv(open(f"{repo}/proto/Cargo.toml").read(), stubs)
    proto = proto.replace('[package]\n', f'[package]\nbuild = "{repo}/proto/build.rs"\n', 1)
    proto += f'\n[lib]\npath = "{repo}/proto/src/lib.rs"\n'
    put(f"{out}/proto/Cargo.toml", proto)
    link(f"{repo}/proto/definitions", f"{out}/proto/definitions")
    link(f"{repo}/src", f"{out}/src")
    cli = conv(open(f"{repo}/cli/Cargo.toml").read(), stubs)
    cli = cli.replace('[package]\n', f'[package]\nbuild = "{repo}/cli/build.rs"\n', 1)
    cli = re.sub(r'path = "src/main.rs"', f'path = "{repo}/cli/src/main.rs"', cli)
    cli = re.sub(r'(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)', '', cli)
    put(f"{out}/cli/Cargo.toml", cli)
    lock = open(f"{repo}/Cargo.lock").read()
    stamp = f"{out}/.repo-Cargo.lock"
    if not os.path.exists(stamp) or open(stamp).read() != lock or not os.path.exists(f"{out}/Cargo.lock"):
        # entries for the replaced packages have sources that cannot be reached: cargo re-resolves those
        blocks = re.split(r'(?m)^(?=\[\[package\]\])', lock)
        keep = [b for b in blocks if not re.search(r'(?m)^name = "(informalsystems-malachitebft-[\w-]+|rocksdb|librocksdb-sys|pre-commit)"', b)]
        put(f"{out}/Cargo.lock", "".join(keep))
        put(stamp, lock)

if __name__ == "__main__":
    main(*[a.rstrip("/") for a in sys.argv[1:4]])
