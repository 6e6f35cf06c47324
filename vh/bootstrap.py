"""Make hypothesis and the code under test importable, without installing anything."""
import os
import shutil
import sys
import tempfile
import zipfile
from pathlib import Path

VERIF = Path(__file__).resolve().parents[1]
REPO = Path(os.environ.get("VH_REPO", "/repo"))
DEPS = VERIF / ".deps"


def ensure_deps():
    """Unpack the vendored wheels into .deps (idempotent, safe under concurrency)."""
    marker = DEPS / "hypothesis" / "__init__.py"
    if not marker.exists():
        tmp = Path(tempfile.mkdtemp(prefix=".deps-", dir=VERIF))
        try:
            for whl in sorted((VERIF / "vendor").glob("*.whl")):
                with zipfile.ZipFile(whl) as z:
                    z.extractall(tmp)
            try:
                os.rename(tmp, DEPS)
            except OSError:
                if not marker.exists():
                    raise
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if str(DEPS) not in sys.path:
        sys.path.append(str(DEPS))


def ensure_repo():
    """The package under test is always the one in the working tree of REPO."""
    p = str(REPO)
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)


def setup():
    ensure_deps()
    ensure_repo()
