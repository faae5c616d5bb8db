import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, derive, check_c24
for crate, feature in (("core", None), ("core", "ts")):
    core.build(crate, feature)
# a user's program that does not compile is for the checks to report
derive.build("", core.Report("setup"), random.Random(1))
core.cargo_build("derive", "ts")
check_c24.toolchain()
print("built")
