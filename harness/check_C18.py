from vlib import main


def check(c):
    c.model_check("MC_Analysis", min_distinct=100, env={"FULL": 1} if c.thorough else None)
    n, k = (500, 12) if c.thorough else (36, 4)
    h = c.generate("Gen_Analysis", num=n, depth=9, env={"DEPTH": 7, "SIZE": "small"})
    h += c.generate("Gen_Analysis", num=n // 2, depth=9, env={"DEPTH": 7, "SIZE": "big"})
    jobs = [dict(prec=p, prop="C18", base=1000 * i, hists=h[i + (k if p == 64 else 0)::2 * k], ansi=(i == 0)) for p in (32, 64) for i in range(k)]
    c.validate("Trace_Analysis", c.drive("analysis", jobs))
    return ["maps are integer valued up to a scale, so that the specification is exact; pixels exactly on the radius are only required not to influence the rest"]


main(check, "C18")
