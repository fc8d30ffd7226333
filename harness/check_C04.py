from vlib import main


def check(c):
    c.model_check("MC_Profiles", env={"MAXN": 4 if c.thorough else 3}, min_distinct=1000)
    n = 1500 if c.thorough else 60
    h = c.generate("Gen_Profiles", num=n, depth=34, env={"DEPTH": 32, "MODE": "live"})
    jobs = [dict(prec=p, prop="C04", base=1000 * k, hists=h[k::4]) for p in (32, 64) for k in range(4)]
    sc = c.drive("profiles", jobs)
    c.validate("Trace_Profiles", sc)
    h = c.generate("Gen_Builtins", num=n // 2, depth=26, env={"DEPTH": 24, "MODE": "live"})
    h += c.enumerate("Gen_Builtins", env={"DEPTH": 1, "MODE": "sweep"})
    jobs = [dict(prec=p, prop="C04", base=1000 * k, hists=h[k::4]) for p in (32, 64) for k in range(4)]
    c.validate("Trace_Builtins", c.drive("builtins", jobs))
    return ["no claim is made where a division by a value below 1/4 or a rounding error beyond 2000 eps enters"]


main(check, "C04")
