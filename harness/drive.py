"""Entry point inside /repo's interpreter: drive.py <property> <trace file>."""
import importlib, os, sys, traceback, zlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import numpy as np
import warnings
warnings.simplefilter("ignore")
import rec as R


def main():
    prop, path = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    rng = np.random.default_rng([seed, zlib.crc32(prop.encode())])
    rec = R.Recorder(path)
    with np.errstate(all="ignore"):
        importlib.import_module("drivers." + prop.lower()).run(rec, rng, tier)
    rec.close()


if __name__ == "__main__":
    main()
