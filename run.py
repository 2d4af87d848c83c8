#!/opt/veriftools/pyvenv/bin/python3
"""run.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N] [--seconds S]"""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True
if __name__ == "__main__":
    prop = sys.argv.pop(1)
    import core
    if prop == "--setup":
        print(core.build_gendlopen("plain"))
        print(core.build_gendlopen("asan"))
        sys.exit(0)
    core.main(importlib.import_module(prop.lower()))
