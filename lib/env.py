"""Import environment: pydarnio from the repository's working tree, hypothesis from the tool venv."""
import os, sys, logging, time, warnings
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
sys.dont_write_bytecode = True
# local time is neither UTC nor free of daylight saving time, so that a mix-up with it shows
os.environ["TZ"] = os.environ.get("VERIF_TZ", "NST3:30NDT,M3.2.0,M11.1.0")
time.tzset()
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)
if TOOLS not in sys.path:
    sys.path.append(TOOLS)
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import numpy as np  # noqa: E402
np.seterr(all="ignore")
