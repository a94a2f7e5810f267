#!/bin/bash
# SANY over every module of the specification (a renamed or overwritten operator shows here at once)
cd "$(dirname "$0")/../spec" || exit 2
bad=0
for m in *.tla; do tla-sany $m > /tmp/sany.$$ 2>&1 || true; if grep -q "Errors\|error\|Fatal\|Unknown\|Could not" /tmp/sany.$$; then grep -v "^Parsing\|^Semantic\|^\*\*\*\|^SANY\|^$" /tmp/sany.$$ | head -5; echo "BAD $m"; bad=1; fi; done
rm -f /tmp/sany.$$; exit $bad
