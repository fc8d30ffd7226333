from vlib import main


def check(c):
    c.model_check("MC_Device", env={"MAXN": 4 if c.thorough else 2}, min_distinct=1000)
    n = 700 if c.thorough else 60
    h = c.generate("Gen_Device", num=n, depth=30, env={"DEPTH": 28, "MODE": "pack"})
    jobs = [dict(prec=p, prop="C07", base=1000 * k, hists=h[k::4]) for p in (32, 64) for k in range(4)]
    c.validate("Trace_Device", c.drive("device", jobs))
    return ["mirrors whose wanted value is exactly on a threshold may take either value"]


main(check, "C07")
