#!/bin/bash
# Builds the harness once (offline).
cd "$(dirname "$0")" || exit 2
. ./env.sh
cd mc && exec cargo build --release --offline
