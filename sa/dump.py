"""Produce the MIR dump of /repo's current working tree (no cache between runs)."""
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LUNIFY_REPO", "/repo")


class DumpError(Exception):
    pass


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], check=True, capture_output=True, text=True).stdout.strip()


def driver_env():
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)
    env.pop("RUSTC_WRAPPER", None)
    return env


def build_driver():
    d = os.path.join(ROOT, "driver")
    out = os.path.join(d, "target", "release", "mirdump")
    if not os.path.exists(out):
        r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline"], cwd=d, env=driver_env(), capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            raise DumpError("the MIR driver does not build:\n" + r.stderr[-4000:])
    return out


_dumps = {}


def dump(features="", opt0=False):
    """path of the JSON dump for a feature set"""
    key = (features, opt0)
    if key in _dumps:
        return _dumps[key]
    drv = build_driver()
    tmp = tempfile.mkdtemp(prefix="lunify-sa-")
    out = os.path.join(tmp, "mir.json")
    env = driver_env()
    env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    env["RUSTC_WORKSPACE_WRAPPER"] = drv
    env["MIRDUMP_OUT"] = out
    env["CARGO_TARGET_DIR"] = os.path.join(tmp, "target")
    if opt0:
        env["MIRDUMP_OPT0"] = "1"
    try:
        r = subprocess.run(
            ["cargo", "+nightly", "check", "--offline", "--lib", "--features", features],
            cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            raise DumpError("cargo check of the repository failed:\n" + r.stderr[-4000:])
    finally:
        shutil.rmtree(os.path.join(tmp, "target"), ignore_errors=True)
    _dumps[key] = out
    return out


def cleanup():
    for p in _dumps.values():
        shutil.rmtree(os.path.dirname(p), ignore_errors=True)
    _dumps.clear()


if __name__ == "__main__":
    print(build_driver())
