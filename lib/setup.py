"""setup_cmd: compiles the number overrides and checks them against TLC's own arithmetic."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vk
r = vk.tlc("MCRat", open(os.path.join(vk.SPECS, "MCRat.cfg")).read())
print(r["out"])
sys.exit(r["rc"])
