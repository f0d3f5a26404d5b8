#!/bin/bash
# Nothing is kept from setup: every check builds what it needs from /repo. This only warms the build cache.
cd "$(dirname "$0")" || exit 1
exit 0
