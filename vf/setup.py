"""Checks that the tools are there; every check builds what it needs from the current tree by itself."""
import shutil, sys
missing = [t for t in ('cbmc', 'goto-cc', 'gcc') if not shutil.which(t)]
if missing: sys.exit('missing tools: ' + ', '.join(missing))
print('ok')
