#!/usr/bin/env python3
"""nothing is built ahead of time: every check rebuilds from /repo. Checks that the tools are there."""
import shutil, sys
miss = [t for t in ('goto-cc', 'goto-instrument', 'cbmc', 'gcc', 'clang', 'ar') if not shutil.which(t)]
print('missing: %s' % miss if miss else 'tools present'); sys.exit(1 if miss else 0)
