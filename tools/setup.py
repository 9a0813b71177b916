"""Checks that the offline toolchain the checks need is here."""
import os
import subprocess
import sys

need = ['/usr/lib/llvm-20/bin/clang++',
        '/usr/lib/llvm-20/lib/libclang-cpp.so.20.1',
        '/usr/lib/llvm-20/lib/libLLVM.so.1']
missing = [n for n in need if not os.path.exists(n)]
for tool in ('objcopy', 'nice'):
    if subprocess.run(['which', tool], stdout=subprocess.DEVNULL).returncode:
        missing.append(tool)
if missing:
    print('missing: ' + ', '.join(missing))
    sys.exit(1)
print('toolchain present; every check builds what it needs from /repo itself')
