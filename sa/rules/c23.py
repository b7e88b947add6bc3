"""Key presses are validated, timed and reported by the motor rules."""
from .actions import compare_actions, part_of_event
from .common import same_constant, Config

LEFT = tuple("12345QWERTASDFGZXCVB") + ("SPACE",)
RIGHT = tuple("67890YUIOPHJKLNM") + ("SPACE",)
HOME = tuple("ASDFJKL") + ("SPACE",)


def num(x):
    from fractions import Fraction
    return Fraction(x)


def run(ck):
    ck.rule("Motor.create agrees with the reference on what is refused and on the chunk returned, on every path")
    ck.rule("the key tables and phase durations have the documented values")
    ck.rule("motorset and motorcontinue agree with the reference on every event, its time, the record of the last key, the keys handed to the environment "
            "and the continuation process, on every path")
    ck.compare("which commands and keys are refused, and the chunk of an accepted one", "motor.Motor.create", "ref_motor.create", also=("ref_motor.create_checked_as_asked",),
               cfg=lambda: Config(cuts={"utilities.check_bound_vars", "chunks.Chunk.removeunused", "chunks.Chunk.__init__"}))
    M = "motor.Motor"
    same_constant(ck, "keys of the left hand", M, "LEFT_HAND", LEFT)
    same_constant(ck, "keys of the right hand", M, "RIGHT_HAND", RIGHT)
    same_constant(ck, "keys pressed from the home row", M, "PRESSING", HOME)
    times = {HOME: tuple(map(num, ("0.15", "0.05", "0.01", "0.09"))), ("5", "6"): tuple(map(num, ("0.25", "0.05", "0.11", "0.16"))),
             (): tuple(map(num, ("0.25", "0.05", "0.1", "0.15")))}
    same_constant(ck, "phase durations of a key press", M, "TIME_PRESSES", times)
    same_constant(ck, "type of manual requests", M, "_MANUAL", "_manual")
    same_constant(ck, "the press-key command", "utilities", "CMDPRESSKEY", "press_key")
    ck.compare("no key has been pressed at the start", "motor.Motor.__init__", "ref_motor.init", keep=lambda k: k[1] == "last_key",
               cfg=lambda: Config(cuts={"buffers.Buffer.__init__"}))
    compare_actions(ck, ("motorset", "motorcontinue", "set_manual"), "events, times, record of the last key, keys handed to the environment",
                    keep=lambda k: k[1] in ("last_key", "env_interaction", ""), yields=part_of_event("time", "action"))
    env(ck)


def env(ck):
    """The keys handed over are those of the procedural module."""
