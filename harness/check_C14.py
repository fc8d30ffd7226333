from vlib import main


def check(c):
    c.model_check("MC_Backend", min_distinct=20)
    n, d = (160, 120) if c.thorough else (24, 71)
    inst = c.enumerate("Gen_Backend", env={"MODE": "inst", "DEPTH": 4 if not c.thorough else 5}, timeout=800)
    h = c.generate("Gen_Backend", num=n, depth=d + 2, env={"DEPTH": d, "MODE": "proc"})
    jobs = [dict(prec=32, prop="C14", base=str(i), hist=x, countfft=True, setprec=False, inst=inst[i::len(h)]) for i, x in enumerate(h)]
    c.validate("Trace_Backend", c.drive("backend", jobs))
    return ["accuracy is decided with inputs a + b 2^-40 whose exact results are integers of the same form",
            "whether constructing an object counts as use of the backend is left open"]


main(check, "C14")
