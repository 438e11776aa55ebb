#!/bin/bash
# Builds the extractor and the falsifier offline from the committed files.
cd "$(dirname "$0")" || exit 1
mkdir -p work evidence
(cd extract && cargo build --offline --release) || exit 1
(cd oracle && cargo build --offline --release) || echo "the falsifier does not build against /repo; checks fall back to the proof alone"
verus --version || exit 1
