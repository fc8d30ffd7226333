from vlib import main


def check(c):
    c.model_check("MC_Hologram", env={"FULL": 1} if c.thorough else None, min_distinct=1000)
    n, k = (480, 32) if c.thorough else (48, 4)
    h = c.generate("Gen_Hologram", num=n, depth=400, env={"DEPTH": 12}, parts=8)
    jobs = [dict(prec=p, base=1000 * i, hists=h[i::k]) for p in (32, 64) for i in range(k)]
    c.validate("Trace_Hologram", c.drive("hologram", jobs))
    return ["single steps N -> N+1 (N up to 8, the same starting phase by seeding TensorFlow) on devices up to 48 pixels whose sides divide 240; "
            "the defaults by comparison with explicit values",
            "the phase of mirrors without light is not judged"]


main(check, "C13")
