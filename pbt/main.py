import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--facet", action="append")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--scale", type=float, default=1.0)
    args = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = core.subseed(os.environ["VERIF_SEED"])
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    try:
        import torchmps
    except Exception as err:
        print(f"cannot import torchmps from {core.REPO}: {err!r}", file=sys.stderr)
        return 2
    where = os.path.realpath(os.path.dirname(torchmps.__file__))
    if where != os.path.realpath(os.path.join(core.REPO, "torchmps")):
        print(f"torchmps imported from {where}", file=sys.stderr)
        return 2
    module = importlib.import_module(f"props.{args.prop.lower()}")
    if args.replay:
        return core.replay(args.prop, module, args.replay)
    return core.run_property(args.prop, module, tier, seed, args.jobs, args.facet, args.scale)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
