"""Nothing is kept between runs: checks build what they need. This only confirms the tools are there."""
import os, shutil, subprocess, sys
for t in ("g++", "java"):
    if not shutil.which(t): sys.exit(f"missing {t}")
for j in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"):
    if not os.path.exists(j): sys.exit(f"missing {j}")
print("ok")
