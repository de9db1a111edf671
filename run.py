import argparse
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--shard", type=int)
    a = ap.parse_args()
    sys.path.insert(0, "/repo")
    sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
    import eth_abi

    if os.path.dirname(os.path.abspath(eth_abi.__file__)) != "/repo/eth_abi":
        print("ERROR: eth_abi is not imported from /repo:", eth_abi.__file__)
        return 2
    from mon import monitor

    return monitor.run_check(a.property, a.tier, a.seed, a.shard)


if __name__ == "__main__":
    sys.exit(main())
