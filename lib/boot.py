"""Make hypothesis importable next to the venv that has lumos' dependencies.

/opt/venv has no hypothesis; the verification venv (or the wheelhouse) does.  Only
hypothesis and its pure dependencies are made visible, so numpy & co. stay those of
/opt/venv.
"""
import glob
import os
import sys
import zipfile

REPO = os.environ.get("LUMOS_REPO", "/repo")
NAMES = ("hypothesis", "_hypothesis_globals.py", "_hypothesis_ftz_detector.py",
         "sortedcontainers", "attr", "attrs")


def bootstrap(workdir):
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        dst = os.path.join(workdir, "pydeps")
        os.makedirs(dst, exist_ok=True)
        src = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
        if os.path.isdir(os.path.join(src, "hypothesis")):
            for n in NAMES:
                s, d = os.path.join(src, n), os.path.join(dst, n)
                if os.path.exists(s) and not os.path.lexists(d):
                    try:
                        os.symlink(s, d)
                    except FileExistsError:
                        pass
        else:
            for pat in ("hypothesis-*cp312*.whl", "sortedcontainers-*.whl", "attrs-*.whl"):
                for whl in glob.glob("/opt/veriftools/wheels/" + pat)[:1]:
                    zipfile.ZipFile(whl).extractall(dst)
        sys.path.append(dst)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
