from vlib import main


def check(c):
    c.model_check("MC_Luxbeam", env={"FULL": 1} if c.thorough else None, min_distinct=10000)
    n, k = (6000, 16) if c.thorough else (480, 4)
    h = c.generate("Gen_Control", num=n, depth=60, env={"DEPTH": 22, "KIND": "lux", "FAULTS": 0}, parts=8)
    c.validate("Trace_Control", c.drive("control", [dict(prec=32, base=1000 * i, tag="C15", hists=h[i::k]) for i in range(k)]))
    return ["the Luxbeam library and device are replaced by a stand-in that records the calls; the sequencer program, registers, frame memory "
            "and trigger lines are interpreted by spec/Luxbeam.tla",
            "delays in the program are not modelled; a trigger is the rising edge of a pulse that comes after the previous frame has settled"]


main(check, "C15")
