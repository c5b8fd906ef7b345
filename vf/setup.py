import shutil, sys
for t in ("goto-cc", "goto-instrument", "cbmc", "gcc"):
    if not shutil.which(t): sys.exit("missing " + t)
print("ok")
