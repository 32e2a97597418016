"""Driver: python check.py <ID> [--tier T] [--replay FILE] [--jobs N] (internal: --worker)."""

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "vendor"))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, "src"))

from vlib import driver  # noqa: E402

if __name__ == "__main__":
    driver.main(sys.argv[1:], HERE, REPO)
