"""Proofs (TLAPS) of what TLC checks within bounds: for any number of series, senders, objects, calls and answers."""
import os, re, shutil, subprocess
from common import *

PROOFS = {"SeriesLogProof": ("C01", "C02", "C03", "C11", "C12"), "SyncProof": ("C16", "C17"), "IdentityProof": ("C19",),
          "HandlesProof": ("C21",)}


def prove(module, workdir, spec=SPEC, stretch=5):
    """Returns (number of obligations, whether all were proved, what tlapm said)."""
    d = os.path.join(workdir, "proof-" + module)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(spec, d)
    try:
        p = subprocess.run(["tlapm", "--cleanfp", "--stretch", str(stretch), "-I", "..", "-I", "stub", "--cache-dir", os.path.join(d, "cache"), module + ".tla"],
                           cwd=os.path.join(d, "proofs"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
        text = p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 0, False, "no answer in time"
    finally:
        shutil.rmtree(d, ignore_errors=True)
    m = re.search(r"All (\d+) obligations? proved", text)
    return (int(m.group(1)), True, text) if m and p.returncode == 0 else (0, False, text)


def of_property(prop, workdir):
    """What is proved of the specification of one property (the thorough tier)."""
    res = []
    for module, props in PROOFS.items():
        if prop in props:
            n, ok, text = prove(module, workdir)
            if not ok:
                raise ToolError("the proof %s does not check: %s" % (module, text[-1500:]))
            res.append({"module": module, "obligations_proved": n})
    return res
