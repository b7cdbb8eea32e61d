#!/bin/bash
# The library's sources relative to lib/, as lib/CMakeLists.txt lists them (all of lib/src if it cannot be read).
cd "$1/lib" || exit 1
python3 - <<'PY'
import re, os
text = re.sub(r'#[^\n]*', '', open('CMakeLists.txt').read()) if os.path.exists('CMakeLists.txt') else ''
m = re.search(r'set\(modbus_src[ \t\r\n]([^)]*)\)', text)
files = [re.sub(r'^\./', '', f) for f in m.group(1).split()] if m else []
files = [f for f in files if f.endswith('.cpp') and os.path.exists(f)]
if not files:
    files = [os.path.relpath(os.path.join(d, f)) for d, _, fs in os.walk('src') for f in fs if f.endswith('.cpp')]
print(' '.join(sorted(set(files))))
PY
