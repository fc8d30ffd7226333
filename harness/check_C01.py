from vlib import main


def check(c):
    c.model_check("MC_Geometry", min_distinct=1000)
    c.model_check("MC_World")
    n = 400 if c.thorough else 60
    h = c.generate("Gen_World", num=n, depth=26, env={"DEPTH": 24})
    jobs = [dict(prec=p, hists=h[k::2], models=(k == 0)) for p in (32, 64) for k in (0, 1)]
    sc = c.drive("c01", jobs)
    c.validate("Trace_World", sc)
    return ["coordinates compared to 0.003 pixel (32 bit) or 0.00003 pixel (64 bit)",
            "large planes are compared at corners, centre and random points"]


main(check, "C01")
