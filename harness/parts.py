"""The parts (generator + runner + oracle) that make up each property's check."""
import json

from .props import P


class Part:
    name = "part"
    cats = None
    n = (100, 1000)
    nontrivial = []
    rule = ""
    assumptions = []

    def strategy(self):
        raise NotImplementedError

    def run(self, case, paths, workdir):
        raise NotImplementedError

    def sample(self, case):
        s = json.dumps(case, ensure_ascii=True)
        return s if len(s) < 1600 else s[:1600] + "..."


class History(Part):
    """Generated histories against the reference model."""
    name = "history"

    def __init__(self, pid):
        p = P[pid]
        self.pid = pid
        self.cats = p["cats"]
        self.n = p["n"]
        self.nontrivial = p["nontrivial"]
        self.profile = p["profile"]
        self.rule = ("a case is a generated history (configurations, commands, redirects, token answers, clock moves, reloads, ...) run against the real server "
                     "and compared step by step with the reference model; non-trivial when it contains at least one of " + ", ".join(self.nontrivial))
        self.assumptions = ["time is virtual: the server's clocks and timed waits are driven by an LD_PRELOAD shim",
                            "token servers, the notification shell and the clients are stand-ins on the loopback network"]

    def strategy(self):
        from . import gen
        return gen.scenario(self.profile)

    def run(self, case, paths, workdir):
        from .engine import run_scenario
        return run_scenario(case, paths, workdir)


STARTUP = {"C21": ({"life"}, (160, 3000)), "C22": ({"perm"}, (160, 3000)), "C25": ({"cli", "info"}, (120, 2500)), "C24": ({"info"}, (60, 1500))}
RACE = {"C21": ({"life"}, (200, 4000)), "C22": ({"perm"}, (60, 1000)), "C25": ({"cli"}, (60, 1000))}


def parts(pid):
    from . import race, startup
    out = []
    if pid in P:
        out.append(History(pid))
    if pid in STARTUP:
        out.append(startup.Startup(pid, *STARTUP[pid]))
    if pid in RACE:
        out.append(race.Race(pid, *RACE[pid]))
    return out
