#!/usr/bin/env python3
"""Builds the simulator once, so that a broken sandbox shows early. The checks build again what they need."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check  # noqa: E402

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.modules['check'] = check
os.makedirs(check.TARGET, exist_ok=True)
check.build(check.Types(int(os.environ.get('VERIF_SEED', '1') or 1), 90), ['std-debug', 'std-edges', 'std-plain'])
check.build(check.Types(int(os.environ.get('VERIF_SEED', '1') or 1), 45), ['std-release', 'alloc-debug', 'core-debug'])
import macro_check  # noqa: E402

err = macro_check.build()
if err:
    print(err, file=sys.stderr)
