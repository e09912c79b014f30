#!/bin/bash
# builds the checkers once, so that later builds are warm
cd "$(dirname "$0")" || exit 3
. ./env.sh
build_plain && build_clock && build_worker && build_request
