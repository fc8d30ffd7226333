from vlib import main


def check(c):
    c.model_check("MC_Builtins", min_distinct=50)
    n = 900 if c.thorough else 48
    h = c.generate("Gen_Builtins", num=n, depth=14, env={"DEPTH": 12, "MODE": "plain"})
    h += c.enumerate("Gen_Builtins", env={"DEPTH": 1, "MODE": "orders"})
    jobs = [dict(prec=p, prop="C05", base=1000 * k, hists=h[k::4], indices=(k == 0)) for p in (32, 64) for k in range(4)]
    c.validate("Trace_Builtins", c.drive("builtins", jobs))
    return ["formulas are compared at parameter values for which they reduce to integers times exp(-k/8) or a square root"]


main(check, "C05")
