from vlib import main


def check(c):
    c.model_check("MC_Luxbeam", env={"FULL": 1} if c.thorough else None, min_distinct=10000)
    c.model_check("MC_Alp", env={"FULL": 1} if c.thorough else None, min_distinct=5000)
    n, k = (3000, 16) if c.thorough else (240, 4)
    for kind in ("lux", "alp"):
        h = c.generate("Gen_Control", num=n, depth=60, env={"DEPTH": 22, "KIND": kind, "FAULTS": 1}, parts=8)
        f = c.enumerate("Gen_Faults", env={"KIND": kind, "MAXK": 16 if c.thorough else 12})
        jobs = [dict(prec=32, base=1000 * i, tag="C17", hists=h[i::k]) for i in range(k)]
        jobs += [dict(prec=32, base=100000 * (i + 1), tag="C17", hists=f[i::k]) for i in range(k)]
        c.validate("Trace_Control", c.drive("control", jobs))
    return ["a fault is an exception raised by a device call, before or (Luxbeam) after the call took effect, at every call position up to the 12th (thorough: 16th) "
            "of opening, loading, triggering, querying and closing",
            "after a failed close, or a failed second opening, the controller is not judged until it is opened or closed again"]


main(check, "C17")
