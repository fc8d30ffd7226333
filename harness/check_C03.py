from vlib import main


def check(c):
    c.model_check("MC_Profiles", env={"MAXN": 4 if c.thorough else 3}, min_distinct=1000)
    n = 1500 if c.thorough else 64
    h = c.generate("Gen_Profiles", num=n, depth=34, env={"DEPTH": 32, "MODE": "algebra"})
    jobs = [dict(prec=p, prop="C03", base=1000 * k, hists=h[k::4]) for p in (32, 64) for k in range(4)]
    sc = c.drive("profiles", jobs)
    c.validate("Trace_Profiles", sc)
    return ["no claim is made where a division by a value below 1/4 or a rounding error beyond 2000 eps enters"]


main(check, "C03")
