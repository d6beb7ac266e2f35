"""mkws.py: make target/ws, a workspace with /repo's own Cargo.toml whose members are symlinks into /repo.

What is compiled is /repo's code as it stands. The difference from /repo's manifest: git dependencies (there is no
network) point at the stand-ins of /verif/standin, and only the packages the harnesses use are members."""
import os, re

ROOT = os.environ["VERIF_ROOT"]
WS = ROOT + "/target/ws"
MEMBERS = ["pallets/linear-release", "pallets/proxy-bonding", "pallets/dispenser", "pallets/parachain-staking",
           "pallets/funding", "pallets/polimec-receiver", "pallets/oracle-ocw", "pallets/on-slash-vesting",
           "polimec-common/common", "pallets/democracy", "runtimes/shared-configuration", "polimec-common/test-utils"]
os.makedirs(WS, exist_ok=True)
for top in sorted(os.listdir("/repo")):
    if top in ("Cargo.toml", "Cargo.lock", "target") or top.startswith("."):
        continue
    link = f"{WS}/{top}"
    if os.path.islink(link) and os.readlink(link) == f"/repo/{top}":
        continue
    if os.path.islink(link):
        os.unlink(link)
    os.symlink(f"/repo/{top}", link)
text = open("/repo/Cargo.toml").read()
mem = [m for m in MEMBERS if os.path.exists(f"/repo/{m}/Cargo.toml")]
text = re.sub(r"^members\s*=\s*\[[^\]]*\]", "members = [\n" + "".join(f'    "{m}",\n' for m in mem) + "]", text, count=1, flags=re.M)
text = re.sub(r"^default-members\s*=\s*\[[^\]]*\]", "", text, count=1, flags=re.M)
out = []
for line in text.splitlines():
    m = re.match(r"^([A-Za-z0-9_-]+)\s*=\s*\{.*\bgit\s*=", line)
    if m:
        d = f"{ROOT}/standin/{m.group(1)}"
        if os.path.isdir(d):
            extra = ", default-features = false" if "default-features" in line else ""
            out.append(f'{m.group(1)} = {{ path = "{d}"{extra} }}')
        continue
    out.append(line)
text = "\n".join(out) + "\n"
p = f"{WS}/Cargo.toml"
if not (os.path.exists(p) and open(p).read() == text):
    open(p, "w").write(text)
