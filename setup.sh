#!/bin/bash
# builds the framework from the committed files (offline)
set -e
cd "$(dirname "$0")"
python3-vt -c "from vlib import build; build.driver(); print('driver built')"
