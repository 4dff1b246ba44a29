"""Builds the drivers once, to show that the framework builds from the committed files."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.dont_write_bytecode = True
import runner
try:
    print(runner.build(["ptvm", "ptvm_native"]))
except runner.BuildError as e:
    print(e)
    sys.exit(1)
