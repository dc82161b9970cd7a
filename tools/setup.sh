#!/bin/bash
# Builds the harness once and checks that the specifications parse.
set -e
cd "$(dirname "$0")/.."
chmod +x tools/*.sh tools/*.py
tools/build.sh
mkdir -p work evidence
for m in Terms TermsGen CombineLaws BigTrace BufReader BufReaderTrace BufReaderLaws Regex UnitTrace Combine ParseTrace Resume ResumeTrace Decoder DecoderTrace Positions StreamsTrace StreamOps StreamOpsTrace ErrorOps ErrorOpsTrace ErrorLaws; do
  (cd spec && tla-sany $m.tla >/dev/null) || { echo "spec $m does not parse"; exit 1; }
done
echo ready
