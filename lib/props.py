"""What each check runs: models and scenario generators."""
import random, time
import gen_adapt, gen_bulk, gen_client, gen_det, gen_fin, gen_save, gen_server
import models


def scenarios(gen):
    def f(tier, seed, scale, t0, work):
        if tier == "quick":
            yield gen(random.Random("%s-%d" % (gen.__name__, seed)), scale or 1.0)
        else:
            k = 0
            while time.time() - t0 < 480 and k < 40:
                yield gen(random.Random("%s-%d-%d" % (gen.__name__, seed, k)), scale or (4.0 if k == 0 else 3.0))
                k += 1
    return f


ASSUME = ["TLC, the JVM, rustc and the recording harness are correct",
          "behaviour is judged on the scenarios that were replayed; the model is exhaustive only within its constants"]

R, S, E, C, I = models.READER, models.SAVE, models.ENTRIES, models.CLIENT, models.ICEPT
MODELS = {
    "C01": [R["base"], R["two"]],
    "C02": [R["base"], R["buffer"]],
    "C03": [R["cut"]],
    "C04": [R["errors"]],
    "C05": [models.NOTE["base"], models.NOTE["values"], models.NOTE["flaws"]],
    "C07": [S["base"]],
    "C08": [S["base"]],
    "C09": [S["base"], S["wide"]],
    "C10": [S["base"], S["errors"]],
    "C11": [E["base"], E["errors"]],
    "C12": [models.DIRS["base"]],
    "C13": [C["base"], C["three"]],
    "C14": [C["base"], C["again"], C["three"]],
    "C15": [C["base"], C["again"]],
    "C16": [C["errors"]],
    "C17": [models.TYPE["near"], models.TYPE["params"]],
    "C18": [I["base"]],
    "C20": [models.MOCK["base"]],
    "C19": [R["returns"], S["returns"], E["returns"], C["returns"], I["returns"]],
}
PROPS = {}
for _p, _g in [x for m in (gen_server, gen_save, gen_client, gen_det, gen_fin, gen_bulk, gen_adapt) for x in m.GENERATORS.items()]:
    PROPS[_p] = {"models": MODELS.get(_p, []), "scenarios": scenarios(_g), "assumptions": ASSUME}


TECHNIQUE = "TLA+ contract and implementation models checked with TLC; trace validation of the real code with TLC"
NOTE = ("Explicit TLA+ contract of the observable behaviour; implementation-shaped TLA+ models are checked against it with TLC "
        "within the constants of their configurations; the real code is bound to the contract by replaying generated scenarios "
        "and validating every recorded execution with TLC. Trusts TLC, the recording harness and the scenarios' coverage.")
