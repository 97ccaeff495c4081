#!/bin/bash
# Runs the repository's own tests: the stable set, and with the stub modules the
# packages that the stable set leaves out. The gen-fuzz.go comparisons differ on
# the base tree already (gofmt of the installed toolchain adds //go:build).
cd /verif/harness || exit 2
export GOPROXY=off GOFLAGS=-mod=readonly GOTOOLCHAIN=local GOSUMDB=off GONOSUMDB='*'
p=github.com/mmcloughlin/trunnel
go test -overlay overlay.json $p/gen $p/tv $p/inspect $p/internal/intervals 2>&1 | grep -E '^ *--- FAIL|^ok|panic|build failed' | grep -vE 'gen-fuzz.go|FAIL: TestGeneratedFiles(/[a-z]*)? '
out=$(mktemp)
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh "$out" >/dev/null 2>&1
python3 - "$out" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
print('stable missing:', sorted(set(b['stable'])-set(t['passed'])), 'passed', len(t['passed']))
P
rm -f "$out"
