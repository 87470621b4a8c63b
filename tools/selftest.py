"""setup_cmd: every check builds what it needs itself, from /repo's working tree; here only the tools are looked for."""
import shutil, sys, os
missing = [t for t in ('clang++', 'python3') if not shutil.which(t)]
print('tools missing: %s' % missing if missing else 'tools found')
sys.exit(1 if missing else 0)
