"""Helpers of the checks that do not load TensorFlow."""
from ._base import Viol, Digest, Run, check  # noqa: F401


def runner(body):
    def run(plan):
        r = Run(plan)
        try:
            nt = body(r, plan)
        except Viol as e:
            return r.result(e.viol)
        return r.result(None, nt is not False)
    return run
