"""Simulated time never runs backwards within a process."""
from .actions import compare_actions, ACTIONS, part_of_event, nothing


def run(ck):
    ck.rule("stamps: each event of each module action carries the start time plus exactly the delays incurred so far, rounded to 4 decimals")
    compare_actions(ck, ACTIONS, "time stamp of each event", state=False, yields=part_of_event("time"), calls=nothing)
