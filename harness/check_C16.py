from vlib import main


def check(c):
    c.model_check("MC_Alp", env={"FULL": 1} if c.thorough else None, min_distinct=5000)
    n, k = (6000, 16) if c.thorough else (480, 4)
    h = c.generate("Gen_Control", num=n, depth=60, env={"DEPTH": 22, "KIND": "alp", "FAULTS": 0}, parts=8)
    c.validate("Trace_Control", c.drive("control", [dict(prec=32, base=1000 * i, tag="C16", hists=h[i::k]) for i in range(k)]))
    return ["the ALP4 library and device are replaced by a stand-in that records the calls; sequence memory, projection mode, trigger edge, "
            "inversion and run state are interpreted by spec/Alp.tla with the vendor's power-on defaults",
            "triggers arrive one minimum picture time apart"]


main(check, "C16")
