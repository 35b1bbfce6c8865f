#!/usr/bin/env python3
"""Decides one property by generated-input search.

  run.py P01                      tier from VERIF_TIER (quick/thorough), seed from VERIF_SEED
  run.py P01 --replay FILE        rebuilds the harness and runs one saved case again

Builds the harness src/p01.cpp from /repo's working tree, runs it in parallel workers, shrinks a failure to
a minimal replay file, and writes evidence/P01.json. Exit 0: held on everything explored; 1: violated;
2: the check itself could not run.
"""
import checks
import driver

if __name__ == "__main__":
    driver.main(checks.CHECKS)
