from vlib import main


def check(c):
    c.model_check("MC_Optics", env={"MAXN": 6 if c.thorough else 3}, min_distinct=150)
    c.model_check("MC_Propagation", min_distinct=1000)
    n, k = (480, 32) if c.thorough else (24, 4)
    h = c.generate("Gen_Propagation", num=n, depth=14, env={"DEPTH": 12})
    jobs = [dict(prec=p, base=1000 * i, hists=h[i::k]) for p in (32, 64) for i in range(k)]
    c.validate("Trace_Propagation", c.drive("prop", jobs))
    return ["dense comparison of every point on padded planes whose sides divide 240 (at most 340 points)",
            "larger planes with a few illuminated pixels at sampled image points, and power relations"]


main(check, "C11")
