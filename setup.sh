#!/bin/bash
# builds what the checks need from the committed files (offline)
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
exit 0
