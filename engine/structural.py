"""Rules decided on declarations and the call graph alone."""


def run(pid, prog):
    r = {"obs": {}, "und": {}, "viol": [], "samples": [], "anchors": [], "funcs": set()}
    f = RULES.get(pid)
    if f:
        f(prog, r)
    return r


RULES = {}
