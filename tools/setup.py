"""nothing to download or build ahead of time: the checks read /repo's sources directly. Verifies that the tools are there."""
import shutil, sys
missing = [t for t in ('gcc', 'cbmc', 'cvc5', 'python3-vt') if not shutil.which(t)]
import z3, pycparser
print('tools ok' if not missing else 'missing %s' % missing, 'z3', z3.get_version_string())
sys.exit(1 if missing else 0)
