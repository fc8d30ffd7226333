"""Driver entry point: python drv.py FAMILY JOB.json OUT.ndjson (runs under /opt/venv, imports /repo)."""
import importlib, json, os, sys
import numpy as np

job = json.load(open(sys.argv[2]))
if job.get("countfft"):
    cnt = job["_cnt"] = [0]
    def wrap(f):
        def g(*a, **k):
            cnt[0] += 1
            return f(*a, **k)
        return g
    import scipy.fft
    for mod in (np.fft, scipy.fft):
        for f in ("fft", "ifft", "fft2", "ifft2", "fftn", "ifftn", "rfft2", "irfft2"):
            setattr(mod, f, wrap(getattr(mod, f)))
import tensorflow as tf
import pySLM2
assert os.path.realpath(pySLM2.__file__).startswith(os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + "/"), pySLM2.__file__
if job.get("setprec", True) and int(job["prec"]) == 64:
    pySLM2.BACKEND.dtype = pySLM2.BACKEND.TENSOR_64BITS
fam = importlib.import_module("fam_" + sys.argv[1])
try:
    out = fam.run(job)
except Exception as e:
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    inrepo = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(os.path.dirname(pySLM2.__file__)))]
    if not inrepo:
        raise
    out = [dict(id="%s/%s/crash" % (sys.argv[1], job["prec"]), crash="%s: %s at %s" % (
        type(e).__name__, str(e)[:200], inrepo[-1].name), events=[])]
with open(sys.argv[3], "w") as f:
    for s in out:
        f.write(json.dumps(s) + "\n")
