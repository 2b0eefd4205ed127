#!/bin/sh
# writes the table of the types the harness knows for the specification
cd "$(dirname "$0")/../harness" && cargo build --offline --quiet && target/debug/flschema dump > ../spec/schema.ndjson
