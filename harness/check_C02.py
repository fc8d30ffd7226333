from vlib import main


def check(c):
    c.model_check("MC_Forms", min_distinct=200)
    n, k = (2400, 16) if c.thorough else (160, 4)
    h = c.generate("Gen_Forms", num=n, depth=16, env={"DEPTH": 7}, parts=4 if c.thorough else 1)
    jobs = [dict(prec=p, prop="C02", base=1000 * i, hists=h[i + (k if p == 64 else 0)::2 * k]) for p in (32, 64) for i in range(k)]
    c.validate("Trace_Forms", c.drive("forms", jobs))
    return ["field values are integers (scaled by powers of two), so every form holds them exactly",
            "results that threshold or iterate are compared between forms only where the values are exact in every form"]


main(check, "C02")
