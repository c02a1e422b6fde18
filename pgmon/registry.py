"""Property id -> check function."""
import importlib

TABLE = {
    "C01": ("container", "scenario_container"),
    "C02": ("container", "input_validation"),
    "C03": ("container", "limit_warnings"),
    "C04": ("container", "isolation"),
    "C05": ("derived", "derived_inputs"),
    "C06": ("accessors", "accessors"),
    "C07": ("accessors", "variability"),
    "C08": ("history", "history"),
    "C09": ("history", "threads"),
    "C10": ("arrays", "array_arguments"),
    "C11": ("effects", "side_effects"),
    "C12": ("domain", "finite_in_limits"),
    "C13": ("families", "ask14"),
    "C14": ("families", "bssa14"),
    "C15": ("families", "cb14"),
    "C16": ("families", "cy14"),
    "C17": ("families", "i14"),
    "C18": ("families", "ena"),
    "C19": ("families", "europe"),
    "C20": ("families", "subduction"),
    "C21": ("families", "ga11"),
    "C22": ("families", "ba19"),
    "C23": ("families", "durations"),
    "C24": ("families", "pr23"),
    "C25": ("families", "pr24"),
    "C26": ("correlations", "baker_jayaram"),
    "C27": ("correlations", "kishida"),
    "C28": ("correlations", "bayless_abrahamson"),
    "C29": ("correlations", "stafford"),
    "C30": ("hermkes", "hermkes"),
    "C31": ("derived", "estimators"),
    "C32": ("domain", "continuity"),
    "C33": ("history", "processes"),
    "C34": ("framework", "framework"),
    "C35": ("framework", "release"),
    "C36": ("strict", "strict"),
    "C37": ("interrupt", "interrupt"),
}


def get(pid):
    mod, fn = TABLE[pid]
    return getattr(importlib.import_module("pgmon.checks." + mod), fn)


# these start processes or threads of their own over one list of evaluations
ALONE = {"C33"}


def shards(pid):
    """Processes to spread the workload over."""
    return 1 if pid in ALONE else 8
