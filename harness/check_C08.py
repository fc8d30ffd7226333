from vlib import main


def check(c):
    c.model_check("MC_Grating", min_distinct=1000)
    n, k = (320, 32) if c.thorough else (24, 4)
    h = c.generate("Gen_Grating", num=n, depth=14, env={"DEPTH": 12})
    jobs = [dict(prec=p, base=1000 * i, hists=h[i::k]) for p in (32, 64) for i in range(k)]
    c.validate("Trace_Grating", c.drive("grating", jobs))
    return ["grating vectors (a, b)/M with M dividing 120, phases multiples of 1/240 turn",
            "switch-on frequencies of the random method within six standard deviations on 288000 mirrors",
            "mirrors exactly on the threshold may take either value"]


main(check, "C08")
