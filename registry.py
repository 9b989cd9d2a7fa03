"""What each check runs: scenario groups of the harness, generated behaviours, exhaustive models."""

S = "Trace_Session"
D = "Trace_Driver"
H = "Trace_Shaper"
GROUPS = {
    "honest": {"spec": S}, "garbage": {"spec": S}, "sizes": {"spec": S}, "refuse": {"spec": S},
    "attack": {"spec": S}, "headers": {"spec": S}, "rekey": {"spec": S}, "v1": {"spec": S},
    "tamper": {"spec": S}, "replay": {"spec": S},
    "d_frag": {"spec": D}, "d_points": {"spec": D}, "d_term": {"spec": D}, "d_cuts": {"spec": D},
    "d_v1": {"spec": D}, "d_tamper": {"spec": D}, "d_decoys": {"spec": D}, "d_limits": {"spec": D},
    "d_cancel": {"spec": D}, "d_writes": {"spec": D}, "d_halves": {"spec": D}, "d_held": {"spec": D},
    "replayd": {"spec": D}, "d_glued": {"spec": D}, "d_sizes": {"spec": D}, "d_bulk": {"spec": D}, "d_large": {"spec": D},
    "sa_mixed": {"spec": H}, "ss_mixed": {"spec": H}, "sa_fails": {"spec": H}, "ss_fails": {"spec": H},
    "sa_drops": {"spec": H}, "ss_drops": {"spec": H}, "sa_amounts": {"spec": H}, "ss_amounts": {"spec": H},
    "s_hs": {"spec": H}, "replays": {"spec": H},
    # the driver's scenarios again, through the shaped interfaces with every strategy disabled
    **{"h_" + n: {"spec": D} for n in "frag points glued sizes bulk large term cuts v1 tamper decoys limits cancel "
                                      "writes held halves".split()},
    "st_seq": {"spec": "Trace_Stats"}, "st_par": {"spec": "Trace_Stats"},
    "sec_fresh": {"spec": "Trace_Secrets"}, "sec_src": {"spec": "Trace_Secrets"}, "replaysec": {"spec": "Trace_Secrets"},
}

GENS = {
    "wide": {"mode": "simulate", "module": "MC_Session.tla", "cfg": "Gen_Session_wide.cfg", "depth": 16,
             "num": 1000, "num_thorough": 30000, "group": "replay"},
    "deep": {"mode": "simulate", "module": "MC_Session.tla", "cfg": "Gen_Session_deep.cfg", "depth": 40,
             "num": 150, "num_thorough": 5000, "group": "replay"},
    "hs": {"mode": "edges", "module": "MC_Session.tla", "cfg": "Gen_Session_hs.cfg",
           "num": 2500, "num_thorough": 60000, "group": "replay"},
    "dsess": {"mode": "simulate", "module": "MC_Driver.tla", "cfg": "Gen_Driver_sess.cfg", "depth": 120,
              "num": 1500, "num_thorough": 40000, "group": "replayd"},
    "dhs": {"mode": "simulate", "module": "MC_Driver.tla", "cfg": "Gen_Driver_hs.cfg", "depth": 120,
            "num": 1200, "num_thorough": 40000, "group": "replayd"},
}

GENS["shape"] = {"mode": "simulate", "module": "MC_Shaper.tla", "cfg": "Gen_Shaper.cfg", "depth": 80,
                 "num": 2000, "num_thorough": 40000, "group": "replays"}

GENS["forks"] = {"mode": "simulate", "module": "MC_Secrets.tla", "cfg": "Gen_Secrets.cfg", "depth": 40,
                 "num": 80, "num_thorough": 1500, "group": "replaysec"}

MODELS = {
    "session": {"module": "MC_Session.tla", "cfg": "MC_Session_quick.cfg", "workers": 3},
    "session_full": {"module": "MC_Session.tla", "cfg": "MC_Session.cfg", "workers": 6},
    "session_ref": {"module": "MC_Session.tla", "cfg": "MC_Session_ref.cfg", "workers": 6},
    "session_reach": {"module": "MC_Session.tla", "cfg": "MC_Session_reach.cfg", "expect": "violated", "workers": 2},
    "driver": {"module": "MC_Driver.tla", "cfg": "MC_Driver_quick.cfg", "workers": 3},
    "driver_full": {"module": "MC_Driver.tla", "cfg": "MC_Driver.cfg", "workers": 6},
    "driver_writes": {"module": "MC_Driver.tla", "cfg": "MC_Driver_writes.cfg", "workers": 4},
}

MODELS["shaper"] = {"module": "MC_Shaper.tla", "cfg": "MC_Shaper_quick.cfg", "workers": 3}
MODELS["shaper_full"] = {"module": "MC_Shaper.tla", "cfg": "MC_Shaper.cfg", "workers": 6}
SHBUGS = ["nopad", "okwhendead", "skipcancelled", "earlyack", "alwaysdecoy", "nolock", "nobreak", "padignored",
          "exitearly", "noexit", "noderr", "nojoin", "readergone", "readlock", "readend"]
for b in SHBUGS:
    MODELS["shaper_bug_" + b] = {"module": "MC_Shaper.tla", "cfg": f"Bug_Shaper_{b}.cfg", "expect": "violated",
                                 "workers": 2}

MODELS["stats"] = {"module": "MC_Stats.tla", "cfg": "MC_Stats_quick.cfg", "workers": 3}
MODELS["stats_full"] = {"module": "MC_Stats.tla", "cfg": "MC_Stats.cfg", "workers": 6}
MODELS["stats_deep"] = {"module": "MC_Stats.tla", "cfg": "MC_Stats_deep.cfg", "workers": 6}
MODELS["stats_bug_split"] = {"module": "MC_Stats.tla", "cfg": "Bug_Stats_split.cfg", "expect": "violated", "workers": 2}
MODELS["secrets"] = {"module": "MC_Secrets.tla", "cfg": "MC_Secrets.cfg", "workers": 2}
MODELS["secrets_first"] = {"module": "MC_Secrets.tla", "cfg": "MC_Secrets_first.cfg", "workers": 4}
for b in ("block", "fork", "shared"):
    MODELS["secrets_bug_" + b] = {"module": "MC_Secrets.tla", "cfg": f"Bug_Secrets_{b}.cfg", "expect": "violated",
                                  "workers": 2}

# Both rotating ciphers, for any number of packets (Apalache, inductive invariant).
MODELS["rekey_unbounded"] = {
    "module": "Rekey.tla", "cfg": "(induction)", "cinit": "ConstInit",
    "steps": [("Init", "IndInv", 0, "NoError"), ("IndInit", "IndInv", 1, "NoError"), ("IndInit", "Safety", 0, "NoError"),
              ("IndInit", "NeverRotates", 0, "Error")]}

# Search, leftover bytes and packet reads, for any sizes, fragmentation and cancellation (Apalache, inductive invariant).
MODELS["stream_unbounded"] = {
    "module": "Stream.tla", "cfg": "(induction)", "cinit": "ConstInit",
    "steps": [("Init", "IndInv", 0, "NoError"), ("IndInit", "IndInv", 1, "NoError"), ("IndInit", "Safety", 0, "NoError"),
              ("IndInit", "NeverAcross", 0, "Error")]}
MODELS["stream_bugs"] = {
    "module": "Stream.tla", "cfg": "(induction)", "cinit": "ConstInit",
    "steps": [("IndInit", "IndInv", 1, "Error", b) for b in ("BugLost", "BugCancel", "BugEarly", "BugLate", "BugSkip")]}

# Wrong rules in the place of right ones: the properties must notice.
def bugs(mod, names):
    out = []
    for b in names.split():
        n = f"{mod.lower()}_bug_{b}"
        MODELS[n] = {"module": f"MC_{mod}.tla", "cfg": f"Bug_{mod}_{b}.cfg", "expect": "violated", "workers": 2}
        out.append(n)
    return out


GUARDS = {
    "C01": bugs("Driver", "leftlost lefttwice"),
    "C02": bugs("Session", "reflected anyorder samekey") + bugs("Driver", "goon"),
    "C03": bugs("Session", "noaad nomagic half") + bugs("Driver", "anyaad"),
    "C05": bugs("Session", "stay small"),
    "C06": bugs("Driver", "early never below beyond garbaad"),
    "C07": bugs("Driver", "leftlost lefttwice noflush readfirst"),
    "C08": bugs("Driver", "cancel"),
    "C09": bugs("Session", "failed small"),
    "C10": bugs("Driver", "noaad"),
    "C11": bugs("Driver", "toolong"),
    "C12": bugs("Driver", "nov1"),
    "C13": bugs("Session", "decoy") + bugs("Driver", "noskip allskip"),
    "C14": bugs("Driver", "noflush readfirst"),
    "C21": bugs("Session", "coupled"),
}

BOTH = {"models": ["session"], "models_thorough": ["session_full", "session_ref", "session_reach"]}


def c(groups, gens=(), **kw):
    d = {"groups": list(groups), "gens": list(gens)}
    d.update(BOTH)
    d.update(kw)
    return d


DRV = {"models": ["driver"], "models_thorough": ["driver_full", "driver_writes"]}
ALL = {"models": ["session", "driver"],
       "models_thorough": ["session_full", "session_ref", "session_reach", "driver_full", "driver_writes"]}
SHP = {"models": ["shaper"], "models_thorough": ["shaper_full"] + ["shaper_bug_" + b for b in SHBUGS]}

CHECKS = {
    "C01": c(["honest", "sizes", "d_frag", "d_points", "d_decoys", "d_writes", "rekey", "d_glued", "d_sizes", "d_bulk", "h_frag", "h_writes", "sa_mixed", "ss_mixed"], ["deep", "dsess"], **ALL),
    "C02": c(["attack", "tamper", "d_tamper", "d_cuts", "d_cancel", "d_frag", "d_large", "h_tamper", "h_cancel"], ["deep", "dsess"], **ALL),
    "C03": c(["tamper", "d_tamper", "d_term", "honest", "d_decoys", "h_tamper", "h_term"], ["hs", "wide", "dhs"], **ALL),
    "C04": c(["honest", "sizes", "headers", "d_frag", "d_decoys", "d_term", "d_writes", "rekey", "d_sizes", "d_bulk", "h_frag", "sa_mixed", "ss_mixed"], ["deep"]),
    "C05": c(["rekey", "refuse", "d_decoys", "d_bulk"], ["deep"], models=["session", "rekey_unbounded"]),
    "C06": c(["garbage", "d_term", "d_points", "d_frag", "h_term"], ["hs", "dhs"], **ALL),
    "C07": c(["d_frag", "d_points", "d_term", "d_cuts", "d_tamper", "d_cancel", "d_writes", "d_halves", "d_held", "d_glued", "d_sizes", "d_bulk", "d_large", "h_frag", "h_points", "h_large"],
             ["dsess", "dhs"], **DRV),
    "C08": c(["d_cancel", "d_large", "d_glued", "h_cancel", "h_glued", "sa_mixed"], ["dsess"], **DRV),
    "C09": c(["refuse", "sizes", "d_limits"], ["deep", "hs"]),
    "C10": c(["refuse", "tamper", "attack", "garbage", "d_tamper", "d_cuts", "d_v1", "d_limits", "d_term", "d_writes", "h_cuts", "h_tamper"],
             ["wide", "dhs"], **ALL),
    "C11": c(["sizes", "d_limits", "d_term", "d_sizes", "h_limits"], [], **ALL),
    "C12": c(["v1", "d_v1", "d_cuts", "d_writes", "d_term", "h_v1", "h_cuts", "h_writes"], ["hs", "dhs"], **ALL),
    "C13": c(["headers", "honest", "d_decoys", "d_frag", "d_limits", "h_decoys", "h_limits", "sa_mixed", "ss_mixed"], ["wide", "dsess"], **ALL),
    "C14": c(["d_writes", "d_frag", "d_term", "d_decoys", "d_sizes", "h_writes", "h_frag", "sa_mixed", "ss_mixed"], ["dhs"], models=["driver"],
             models_thorough=["driver_full", "driver_writes"]),
    "C15": c(["sa_mixed", "ss_mixed", "sa_amounts", "ss_amounts", "sa_fails", "ss_fails", "sa_drops", "ss_drops", "s_hs", "h_frag", "h_writes", "h_cancel", "h_halves", "h_points", "h_decoys", "h_limits", "h_bulk"], ["shape"], **SHP),
    "C16": c(["sa_mixed", "ss_mixed", "sa_amounts", "ss_amounts", "s_hs", "sa_drops", "ss_drops"], ["shape"], **SHP),
    "C17": c(["sa_mixed", "ss_mixed", "sa_drops", "ss_drops", "sa_fails", "ss_fails"], ["shape"], **SHP),
    "C18": c(["sa_mixed", "ss_mixed", "sa_fails", "ss_fails", "sa_drops", "ss_drops"], ["shape"], **SHP),
    "C19": c(["st_seq", "st_par"], models=["stats"], models_thorough=["stats_full", "stats_deep", "stats_bug_split"]),
    "C20": c(["sec_fresh", "sec_src"], ["forks"], models=["secrets"],
             models_thorough=["secrets_first", "secrets_bug_block", "secrets_bug_fork", "secrets_bug_shared"]),
    "C21": c(["attack", "d_halves", "d_held", "d_writes", "d_frag", "d_cancel", "d_cuts", "d_bulk", "h_halves", "h_held", "h_writes", "sa_drops", "ss_drops", "sa_fails", "ss_fails", "sa_mixed", "ss_mixed"], ["deep"]),
}

for _p, _m in GUARDS.items():
    CHECKS[_p]["models_thorough"] = list(CHECKS[_p].get("models_thorough", [])) + _m
for _p in ("C06", "C07", "C08"):
    CHECKS[_p]["models"] = list(CHECKS[_p]["models"]) + ["stream_unbounded"]
    CHECKS[_p]["models_thorough"] += ["stream_bugs"]

NOTES = {}
