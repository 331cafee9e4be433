"""Runtime monitors for giddy."""

import importlib
import warnings

MODULES = {
    "p_chain": ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C28"],
    "p_spatial": ["C09", "C10", "C11", "C12"],
    "p_lisa": ["C13", "C14", "C15", "C16", "C30"],
    "p_rank": ["C17", "C18", "C19", "C20"],
    "p_rose": ["C21", "C22", "C23"],
    "p_seq": ["C24", "C25"],
    "p_cross": ["C26", "C27", "C29"],
    "p_use": ["C31", "C32", "C33"],
}


def load(pid):
    warnings.simplefilter("ignore")
    for mod, pids in MODULES.items():
        if pid in pids:
            importlib.import_module(f"gmon.{mod}")
            return
    raise SystemExit(f"unknown property {pid}")
