"""Entry point: python -m mc.main <property> [--replay FILE]."""
import importlib
import os
import sys

from mc import engine


def main(argv):
  prop = argv[0]
  tier = os.environ.get("VERIF_TIER", "quick")
  if tier not in ("quick", "thorough"):
    tier = "quick"
  seed = int(os.environ.get("VERIF_SEED", "1"))
  module = importlib.import_module(f"checks.{prop.lower()}")
  check = module.CHECK(tier)
  if len(argv) > 2 and argv[1] == "--replay":
    return engine.replay(check, argv[2])
  return engine.explore(check, seed)


if __name__ == "__main__":
  sys.exit(main(sys.argv[1:]))
