#!/bin/bash
# builds the MIR extractor and warms the dumps (checks do the same themselves when this has not run)
cd "$(dirname "$0")" || exit 1
mkdir -p .work
for c in serde borsh serde-release; do
  bash extract.sh $c .work/setup-$c.json .work/build || exit 1
done
rm -f "$PWD"/.work/setup-*.json
