#!/bin/bash
# usage: addfix.sh PROPERTY COMMIT TEXT...: add a "fixed" line to known_findings.json
cd "$(dirname "$0")/.."
python3 - "$@" <<'P'
import sys
s = open('known_findings.json').read()
i = s.rindex('"\n ]')
t = 'fixed: property=%s %s %s' % (sys.argv[1], sys.argv[2], ' '.join(sys.argv[3:]))
open('known_findings.json', 'w').write(s[:i] + '",\n  "' + t.replace('"', '\\"') + s[i:])
P
