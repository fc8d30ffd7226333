from vlib import main


def check(c):
    c.model_check("MC_Calculation", min_distinct=500)
    n, k = (640, 32) if c.thorough else (32, 4)
    h = c.generate("Gen_Calculation", num=n, depth=60, env={"DEPTH": 12}, parts=4)
    jobs = [dict(prec=p, base=1000 * i, hists=h[i::k]) for p in (32, 64) for i in range(k)]
    c.validate("Trace_Calculation", c.drive("calc", jobs))
    return ["devices up to 15x15 mirrors whose sides divide 240, Gaussian-integer beams, targets and windows",
            "the first-order beam is separated from the other orders by turning the phase of the target",
            "mirrors within rounding of a threshold may take either value", "targets that are zero everywhere are excluded"]


main(check, "C09")
