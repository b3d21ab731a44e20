"""Process bootstrap: build the clock shim, re-exec the project's interpreter with it.

Nothing here is kept between runs except the compiled shim (in /verif/.build,
git-ignored; a private temporary directory when that is not writable)."""
from __future__ import annotations

import hashlib
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python"
HYPO_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def build_shim() -> str:
    src = os.path.join(HERE, "vclock.c")
    with open(src, "rb") as f:
        digest = hashlib.sha256(f.read()).hexdigest()[:16]
    for base in (os.path.join(ROOT, ".build"), os.path.join(tempfile.gettempdir(), "verif-build-%d" % os.getuid())):
        out = os.path.join(base, f"vclock-{digest}.so")
        if os.path.exists(out):
            return out
        try:
            os.makedirs(base, exist_ok=True)
            tmp = f"{out}.{os.getpid()}.tmp"
            subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src], check=True)
            os.replace(tmp, out)
            return out
        except OSError:
            continue
    raise RuntimeError("cannot build the clock shim")


def child_env(shim: str) -> dict[str, str]:
    env = dict(os.environ)
    env["LD_PRELOAD"] = shim
    env["VERIF_VCLOCK"] = shim
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["TZ"] = "UTC"
    env["VERIF_REPO"] = REPO
    env["TOKIO_WORKER_THREADS"] = "1"
    env["OTEL_SDK_DISABLED"] = "true"
    for k in list(env):
        if k.startswith("DOCKET_"):
            del env[k]
    env["PYTHONPATH"] = os.pathsep.join([os.path.join(REPO, "src"), ROOT])
    return env


def setup_paths() -> None:
    """In the re-executed interpreter: make Hypothesis importable, last on the path."""
    if HYPO_SITE not in sys.path:
        sys.path.append(HYPO_SITE)
