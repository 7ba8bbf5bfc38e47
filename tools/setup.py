"""setup_cmd: nothing is built; make the output folders and see that the interpreter of the repository has Hypothesis."""
import os
import subprocess
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(here, d), exist_ok=True)
sys.exit(subprocess.call(["/opt/venv/bin/python", "-B", "-c",
                          "import sys; sys.path.insert(0, '.'); from pbt import core; sys.meta_path.append(core._VendorFinder); "
                          "import hypothesis, mido, pretty_midi, torch; print('hypothesis', hypothesis.__version__)"], cwd=here))
