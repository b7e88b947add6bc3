"""Chunks made from stimuli show what is visible and only that."""
from .common import Config, same_constant, mk

F = "vision.chunk_from_stimulus"


def run(ck):
    ck.rule("chunk_from_stimulus agrees with the reference on the type, the slots and the values of the chunk for both buffers, with and without position, "
            "and changes nothing (in particular not the stimulus) on any path")
    ck.rule("the built-in types are those of the visual and the visual-location chunk")

    def cfg():
        return Config(cuts={F}, impure=set())
    names = [a.arg for a in ck.func(F).node.args.args]
    for b in ("visual", "visual_location", "goal"):
        ck.compare(f"the chunk made from a stimulus for the buffer {b}", F, "ref_vision.stimulus_chunk", cfg=cfg, catch=("AttributeError",),
                   args={names[1]: mk("s", b), "buffer_name": mk("s", b)}, keep=lambda k: True)
    same_constant(ck, "the built-in visual type", "utilities", "VISUAL", "_visual")
    same_constant(ck, "the built-in visual-location type", "utilities", "VISUALLOCATION", "_visuallocation")
