#!/opt/venv/bin/python
"""check.py Cxx -- decide one property (VERIF_TIER=quick|thorough, VERIF_SEED)."""
import os, sys, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
from harness import Check, MachineryError

WHERE = {"C%02d" % i: "p_closure" for i in range(1, 6)}
for p in ("C10", "C12", "C13"):
    WHERE[p] = "p_options"
WHERE["C11"] = "p_meta"
WHERE["C14"] = WHERE["C15"] = "p_session"
WHERE["C09"] = "p_facets"
WHERE["C16"] = "p_robust"
WHERE["C17"] = "p_imports"
WHERE["C19"] = "p_trim"
WHERE["C20"] = "p_life"
WHERE["C18"] = "p_convert"
WHERE["C08"] = "p_lexical"
WHERE["C06"] = "p_errors"
WHERE["C07"] = "p_datatypes"

if __name__ == "__main__":
    pid = sys.argv[1]
    chk = Check(pid)
    try:
        getattr(importlib.import_module(WHERE[pid]), pid.lower())(chk)
    except MachineryError as e:
        print("MACHINERY ERROR: %s" % e)
        sys.exit(2)
    chk.finish()
