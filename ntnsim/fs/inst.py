"""World of the post-install scripts: a fake Sionna installation, and what its channel
package must look like before and after the registration."""
import os
import sys

from . import sim as S

LAYOUT = {"main": ("sionna/phy/channel", "post_install.py"),
          "legacy": ("sionna/channel", "post_install_legacy.py")}
OLD = b"from . import tr38901"
NEW = b"from . import tr38811"

STUB = '''
class _D:
    location = LOC
    version = "1.2.2"
    project_name = key = "sionna"
def get_distribution(name):
    if str(name).split("=")[0].split(">")[0].strip().lower() != "sionna":
        raise Exception("The '%s' distribution was not found" % name)
    return _D()
working_set = type("W", (), {"by_key": {"sionna": _D()}})()
class DistributionNotFound(Exception):
    pass
'''


def content(v):
    """__init__ of the channel package, variant `v`"""
    lines = [b"#", b"# SPDX-License-Identifier: Apache-2.0", b'"""Channel sub-package of Sionna"""',
             b"from .channel_model import ChannelModel"]
    if v["utf8"]:
        lines.append("# Kanalmodelle für Sionna – Überblick".encode())
    head = [b"from . import constants"]
    tail = [b"from .awgn import AWGN", b"from .utils import deg_2_rad, \\", b"    rad_2_deg"]
    big = [b"# " + bytes([97+i % 26])*60 for i in range(v["big"])]
    reg = [OLD + (b" # TR 38.901" if v["comment"] else b"") + ("  # \x0c \x1c \x85 \u2028 NTN".encode() if v.get("odd") else b"")]
    if v["twice"]:
        tail = tail+[OLD]
    if v["state"] == "missing":
        reg = []
        tail = [t for t in tail if t != OLD]
    elif v["state"] == "done":
        reg.append(NEW)
    body = lines+big[:len(big)//2]+head+reg+([] if v["last"] else tail+big[len(big)//2:])
    eol = b"\r\n" if v["crlf"] else b"\n"
    return eol.join(body)+(b"" if v["unterminated"] else eol)


def gen_variant(rnd):
    return dict(utf8=rnd.random() < .3, big=0 if rnd.random() < .4 else rnd.choice([30, 300, 1500]),
                comment=rnd.random() < .2, twice=rnd.random() < .1,
                state=rnd.choices(["todo", "done", "missing"], [8, 1, 1])[0], last=rnd.random() < .3,
                crlf=rnd.random() < .15, unterminated=rnd.random() < .2, mode=rnd.choice([0o644, 0o644, 0o600, 0o664, 0o640]),
                link=rnd.random() < .15, layout=rnd.choice(["main", "main", "legacy"]), odd=rnd.random() < .12)


def expected(data):
    """The registered form of `data`"""
    lines = data.splitlines(keepends=True)
    if any(NEW in l for l in lines):
        return data
    for i, l in enumerate(lines):
        if OLD in l:
            eol = b"\r\n" if l.endswith(b"\r\n") else b"\n"
            if not l.endswith(b"\n"):
                lines[i] = l+eol
            lines.insert(i+1, NEW+eol)
            return b"".join(lines)
    return data


def setup(w, v):
    d, _ = LAYOUT[v["layout"]]
    init = content(v)
    os.makedirs(os.path.join(w.root, "tmp"))
    w.put("site/sionna-1.2.2.dist-info/METADATA", "Metadata-Version: 2.1\nName: sionna\nVersion: 1.2.2\n")
    w.put("site/sionna-1.2.2.dist-info/RECORD", f"{d}/__init__.py,,\n")
    w.put("site/sionna/__init__.py", "__version__ = '1.2.2'\n")
    w.put(f"site/{d}/awgn.py", "class AWGN:\n    pass\n")
    w.put(f"site/{d}/tr38901/__init__.py", "# 38.901\n")
    if d.count("/") == 2:
        w.put("site/sionna/phy/__init__.py", "# phy\n")
    if v["link"]:
        w.put("store/channel_init.py", init, v["mode"])
        os.symlink("../"*(d.count("/")+2)+"store/channel_init.py", os.path.join(w.root, "site", d, "__init__.py"))
    else:
        w.put(f"site/{d}/__init__.py", init, v["mode"])
    stub = os.path.join(w.base, "stub")
    if not os.path.isdir(stub):
        os.mkdir(stub)
    with open(os.path.join(stub, "pkg_resources.py"), "w") as f:
        f.write(f"LOC = {os.path.join(w.root, 'site')!r}\n"+STUB)
    return init, f"site/{d}/__init__.py"


def command(w, v):
    script = os.path.join(os.path.realpath(S.REPO), LAYOUT[v["layout"]][1])
    return [S.PY, "-S", "-B", script]


def env(w):
    return {"PYTHONPATH": os.path.join(w.base, "stub")+":"+os.path.join(w.root, "site"), "PYTHONNOUSERSITE": "1"}


def resolve(tree, rel):
    """Follow a symbolic link of the tree"""
    for _ in range(5):
        e = tree.get(rel)
        if e is None or e[0] != "l":
            return rel, e
        rel = os.path.normpath(os.path.join(os.path.dirname(rel), e[3]))
    return rel, None
