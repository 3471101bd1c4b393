"""Export the MIR of /repo's current working tree (never its history, never a cached copy)."""
import json, os, shutil, subprocess, tempfile, tomllib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class ExportError(Exception):
    pass


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], check=True, capture_output=True, text=True).stdout.strip()


def driver(*more):
    subprocess.run([os.path.join(ROOT, "build_driver.sh")] + list(more), check=True, stdout=subprocess.DEVNULL)
    return os.path.join(ROOT, "build", "yamd-mir")


def export(repo, keep=None, release=False):
    """path of the JSON export of the library crate (default features), with or without debug assertions and overflow checks"""
    d = driver()
    sr = sysroot()
    out = keep or tempfile.mkdtemp(prefix="yamd-mir-")
    with open(os.path.join(repo, "Cargo.toml"), "rb") as f:
        ct = tomllib.load(f)
    edition = str(ct["package"].get("edition", "2015"))
    lib = ct.get("lib", {}).get("path", "src/lib.rs")
    feats = []
    todo = list(ct.get("features", {}).get("default", []))
    while todo:
        x = todo.pop()
        if ":" not in x and "/" not in x and x not in feats:
            feats.append(x)
            todo += ct["features"].get(x, [])
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = sr + "/lib"
    env["YAMD_MIR_OUT"] = out
    env["YAMD_MIR_TAG"] = "-release" if release else ""
    onoff = "off" if release else "on"
    for k, v in (("CARGO_PKG_NAME", ct["package"]["name"]), ("CARGO_PKG_VERSION", ct["package"].get("version", "0")), ("CARGO_MANIFEST_DIR", repo)):
        env[k] = v
    cmd = [d, "rustc", "--crate-name", "yamd", "--edition", edition, lib, "--crate-type", "lib", "--emit=metadata",
           "-Zmir-opt-level=0", "-Cdebug-assertions=" + onoff, "-Coverflow-checks=" + onoff, "--out-dir", out, "--sysroot", sr, "--cap-lints", "allow"]
    for f in feats:
        cmd += ["--cfg", 'feature="%s"' % f]
    r = subprocess.run(cmd, cwd=repo, env=env, capture_output=True, text=True)
    p = os.path.join(out, "yamd-release.json" if release else "yamd.json")
    if r.returncode != 0 or not os.path.exists(p):
        if not keep:
            shutil.rmtree(out, ignore_errors=True)
        raise ExportError("the library does not compile for analysis:\n" + r.stderr[-4000:])
    return p


def types(repo, keep):
    """path of a JSON list of the crate's types, implementations and serde attributes, with the serde feature on"""
    d = driver("serde")
    sr = sysroot()
    ext = {}
    dirs = set()
    with open(os.path.join(ROOT, "build", "serde.json")) as f:
        for line in f:
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact":
                for p in m["filenames"]:
                    dirs.add(os.path.dirname(p))
                    if m["target"]["name"] == "serde" and p.endswith(".rmeta"):
                        ext["serde"] = p
    with open(os.path.join(repo, "Cargo.toml"), "rb") as f:
        ct = tomllib.load(f)
    p = os.path.join(keep, "types.json")
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = sr + "/lib"
    env["YAMD_MIR_OUT"] = keep
    env["YAMD_ATTRS_OUT"] = p
    cmd = [d, "rustc", "--crate-name", "yamd", "--edition", str(ct["package"].get("edition", "2015")), ct.get("lib", {}).get("path", "src/lib.rs"),
           "--crate-type", "lib", "--emit=metadata", "--out-dir", keep, "--sysroot", sr, "--cap-lints", "allow",
           "--cfg", 'feature="serde"', "--extern", "serde=" + ext["serde"]]
    for x in sorted(dirs):
        cmd += ["-L", "dependency=" + x]
    r = subprocess.run(cmd, cwd=repo, env=env, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(p):
        raise ExportError("the library does not compile for analysis with the serde feature:\n" + r.stderr[-4000:])
    return p
