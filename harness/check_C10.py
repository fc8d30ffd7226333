from vlib import main


def check(c):
    c.model_check("MC_Ifta", env={"FULL": 1} if c.thorough else None, min_distinct=200)
    n, k = (480, 32) if c.thorough else (24, 4)
    h = c.generate("Gen_Ifta", num=n, depth=400, env={"DEPTH": 10}, parts=8)
    jobs = [dict(prec=p, base=1000 * i, hists=h[i::k]) for p in (32, 64) for i in range(k)]
    c.validate("Trace_Ifta", c.drive("ifta", jobs))
    return ["devices up to 40 mirrors whose sides divide 240, N up to 9; the defaults N=200 and s=1 by comparison with explicit values on larger devices",
            "histories in which a mirror comes within 1e-4 of a threshold are not judged beyond shape and type"]


main(check, "C10")
