"""Generates /verif/build/ws: /repo's workspace manifest with the git/unfetchable
dependencies redirected to /verif/shims.  crates/ is a symlink to /repo/crates, so
every build compiles /repo's current working tree."""
import os, re, sys, hashlib, glob, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TLSN_REPO", "/repo")
B = f"{V}/build"
WS = f"{B}/ws"
os.makedirs(WS, exist_ok=True)
link = f"{WS}/crates"
if os.path.islink(link) and os.readlink(link) != f"{REPO}/crates":
    os.unlink(link)
if not os.path.islink(link):
    os.symlink(f"{REPO}/crates", link)

text = open(f"{REPO}/Cargo.toml").read()
text, n = re.subn(r"^members\s*=\s*\[.*?^\]", "members = []", text, count=1, flags=re.M | re.S)
if n != 1:
    sys.exit("mkws.py: no members list in Cargo.toml")
shims = {d for d in (os.listdir(f"{V}/shims") if os.path.isdir(f"{V}/shims") else []) if os.path.exists(f"{V}/shims/{d}/Cargo.toml")}
out = []
for line in text.splitlines():
    m = re.match(r"^([A-Za-z0-9_-]+)\s*=\s*\{(.*)\}\s*$", line)
    if m and m.group(1) in shims:
        name, body = m.groups()
        rest = [p.strip() for p in re.split(r",(?![^\[]*\])", body)]
        keep = [p for p in rest if p.split("=")[0].strip() in ("features", "default-features", "package")]
        line = f'{name} = {{ path = "{V}/shims/{name}"' + "".join(", " + k for k in keep) + " }"
    out.append(line)
text = "\n".join(out) + "\n"
p = f"{WS}/Cargo.toml"
if not os.path.exists(p) or open(p).read() != text:
    open(p, "w").write(text)

# Content stamp of everything compiled from /repo: cargo looks at mtimes only, so when the
# content changed since the last build here, drop the fingerprints of everything that
# compiles /repo sources (a stale artefact would hide a change).
h = hashlib.sha256()
for root, dirs, files in os.walk(f"{REPO}/crates"):
    dirs.sort()
    dirs[:] = [d for d in dirs if d not in ("target", "node_modules", ".git")]
    for f in sorted(files):
        q = os.path.join(root, f)
        h.update(q.encode()); h.update(b"\0")
        try:
            h.update(open(q, "rb").read())
        except OSError:
            pass
stamp = h.hexdigest()
sp = f"{B}/stamp"
if not os.path.exists(sp) or open(sp).read() != stamp:
    for fp in glob.glob(f"{B}/target/*/.fingerprint/*"):
        b = os.path.basename(fp)
        if b.startswith(("tlsn", "tls-", "hx-")) and not b.startswith("hx-lib"):
            shutil.rmtree(fp, ignore_errors=True)
    open(sp, "w").write(stamp)
