"""World of the installation scripts (install.sh, install_legacy.sh): a shell which sources
them in a simulated environment: pip, curl, wget and python are stand-ins which act on a
scratch directory and fail where the plan says so."""
import os

from . import inst as I
from . import sim as S

SCRIPT = {"main": "install.sh", "legacy": "install_legacy.sh"}
PKG = {"__init__.py": "# OpenNTN\nfrom .models import table\n", "models/__init__.py": "table = {}\n",
       "models/a.json": "{}\n"}

# faults of the environment: tool name -> what goes wrong
FAULTS = {"pip_install": ("none", "partial"), "pip_show_OpenNTN": ("fail", "noise"), "pip_show_sionna": ("fail",),
          "curl": ("none", "partial", "http404"), "python": ("fail",), "ln": ("fail",)}

PIP = r'''#!/bin/bash
# stand-in for pip; $SIM_SITE is the site-packages directory
case "$1" in
install)
    case "$SIM_PIP_INSTALL" in
    none) echo "ERROR: could not reach github.com" >&2; exit 1;;
    partial) mkdir -p "$SIM_SITE/OpenNTN/models"; echo "ERROR: disk quota exceeded" >&2; exit 1;;
    esac
    [ -d "$SIM_SITE/OpenNTN-1.0.dist-info" ] && exit 0
    mkdir -p "$SIM_SITE/OpenNTN/models" &&
    cp "$SIM_STUB/pkg/a.json" "$SIM_STUB/pkg/models_init.py" "$SIM_SITE/OpenNTN/models/" &&
    mv "$SIM_SITE/OpenNTN/models/models_init.py" "$SIM_SITE/OpenNTN/models/__init__.py" &&
    cp "$SIM_STUB/pkg/__init__.py" "$SIM_SITE/OpenNTN/__init__.py" &&
    mkdir "$SIM_SITE/OpenNTN-1.0.dist-info" || exit 1
    exit 0;;
show)
    shift
    [ "$1" = "-f" ] && shift
    n=$(printf %s "$1" | tr A-Z a-z)
    if [ "$n" = openntn ]; then
        [ -n "$SIM_PIP_SHOW_OPENNTN" ] && { echo "WARNING: Package(s) not found: $1" >&2; exit 1; }
        [ -d "$SIM_SITE/OpenNTN-1.0.dist-info" ] || { echo "WARNING: Package(s) not found: $1" >&2; exit 1; }
    else
        [ -n "$SIM_PIP_SHOW_SIONNA" ] && { echo "WARNING: Package(s) not found: $1" >&2; exit 1; }
    fi
    printf 'Name: %s\nVersion: 1.0\nSummary: x\nHome-page: \nLicense: \nLocation: %s\nRequires: numpy\nRequired-by: \n' "$1" "$SIM_SITE"
    exit 0;;
esac
exit 0
'''

CURL = r'''#!/bin/bash
# stand-in for curl and wget
fail_http=""; out=""; url=""
while [ $# -gt 0 ]; do
    case "$1" in
    -o|-O|--output) case "$2" in -*|http*) out="";; *) out="$2"; shift;; esac;;
    --fail|-f) fail_http=1;;
    --*) ;;
    -*o) case "$1" in *f*) fail_http=1;; esac; out="$2"; shift;;
    -*) case "$1" in *f*) fail_http=1;; esac;;
    *) url="$1";;
    esac
    shift
done
[ -n "$out" ] || out="${url##*/}"
case "$SIM_CURL" in
none) echo "curl: (6) Could not resolve host" >&2; exit 6;;
partial) head -c 700 "$SIM_REPO/${url##*/}" | tee "$out" >/dev/null; exit 18;;
http404) [ -n "$fail_http" ] && exit 22; cp "$SIM_STUB/404" "$out"; exit 0;;
esac
[ -f "$SIM_REPO/${url##*/}" ] || exit 22
cp "$SIM_REPO/${url##*/}" "$out"
'''

PYTHON = r'''#!/bin/bash
# stand-in for the interpreter of the environment
if [ "$1" = "-m" ] && [ "$2" = pip ]; then shift 2; exec "$SIM_STUB/bin/pip" "$@"; fi
[ -n "$SIM_PYTHON" ] && exit 1
PYTHONPATH="$SIM_STUB:$SIM_SITE" exec "$SIM_PY" -S -B "$@"
'''

LN = r'''#!/bin/bash
[ -n "$SIM_LN" ] && { echo "ln: failed to create symbolic link: Permission denied" >&2; exit 1; }
exec /usr/bin/ln "$@"
'''


def setup(w, v):
    """`v`: variant of inst.gen_variant plus 'space' (a blank in the path of the installation)"""
    site = "my site" if v.get("space") else "site"
    init, rel = I.setup(w, v)
    if site != "site":
        os.rename(os.path.join(w.root, "site"), os.path.join(w.root, site))
        rel = site+rel[4:]
    stub = os.path.join(w.base, "stub")
    os.makedirs(os.path.join(stub, "bin"), exist_ok=True)
    os.makedirs(os.path.join(stub, "pkg"), exist_ok=True)
    with open(os.path.join(stub, "pkg_resources.py"), "w") as f:
        f.write(f"LOC = {os.path.join(w.root, site)!r}\n"+I.STUB)
    for n, t in (("a.json", PKG["models/a.json"]), ("models_init.py", PKG["models/__init__.py"]), ("__init__.py", PKG["__init__.py"])):
        with open(os.path.join(stub, "pkg", n), "w") as f:
            f.write(t)
    with open(os.path.join(stub, "404"), "w") as f:
        f.write("404: Not Found")
    for n, t in (("pip", PIP), ("pip3", PIP), ("curl", CURL), ("wget", CURL), ("python", PYTHON), ("python3", PYTHON), ("ln", LN)):
        p = os.path.join(stub, "bin", n)
        with open(p, "w") as f:
            f.write(t)
        os.chmod(p, 0o755)
    os.makedirs(os.path.join(w.root, "home"), exist_ok=True)
    return init, rel, site


def command(w, v):
    script = os.path.join(os.path.realpath(S.REPO), SCRIPT[v["layout"]])
    # as the documentation says: sourced into the user's shell, which must survive it
    return ["/bin/bash", "--norc", "-c",
            f'cd home; . "{script}"; printf "%s\\n" "$-" "$PWD" > ../tmp/shell']


def env(w, site, tools):
    stub = os.path.join(w.base, "stub")
    e = {"PATH": os.path.join(stub, "bin")+":/usr/bin:/bin", "SIM_STUB": stub, "SIM_SITE": os.path.join(w.root, site),
         "SIM_REPO": os.path.realpath(S.REPO), "SIM_PY": S.PY, "PYTHONNOUSERSITE": "1"}
    for k, x in (tools or {}).items():
        e["SIM_"+k.upper()] = x
    return e
