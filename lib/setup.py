#!/usr/bin/env python3
"""Nothing is prebuilt (checks rebuild from /repo's tree): make sure the tools are there."""
import shutil, sys, os
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
missing = [t for t in ('clang++',) if not shutil.which(t)]
sys.exit('missing: %s' % missing if missing else 0)
