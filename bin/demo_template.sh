#!/bin/bash
# Compiles demo.cpp (beside this script) against the headers of the tree in the
# current directory and runs it in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/inc/humoto" "$tmp/run"
for d in core/include modules/*/include bridges/*/interface; do cp -r "$repo/$d/." "$tmp/inc/humoto/"; done
for e in obstacle_avoidance.h obstacles; do [ -e "$repo/bridges/obstacle_avoidance/$e" ] && cp -r "$repo/bridges/obstacle_avoidance/$e" "$tmp/inc/humoto/"; done
cat > "$tmp/inc/humoto/build_config.h" <<'X'
#pragma once
#define HUMOTO_COMPILER_SUPPORTS_FUNC_
#define HUMOTO_COMPILER_SUPPORTS_FUNCTION_
#define HUMOTO_DEFAULT_CONFIG_PREFIX "./config/"
#define HUMOTO_USE_THREADS_FOR_LOGGING
#define HUMOTO_GIT_COMMIT_INFO "demo"
#define HUMOTO_BRIDGE_config_msgpack
#define HUMOTO_BRIDGE_obstacle_avoidance
#define HUMOTO_MODULE_pepper_mpc
#define HUMOTO_MODULE_wpg04
X
clang++-18 -std=c++14 -O0 -w $DEMO_FLAGS -I "$here" -I "$tmp/inc" -isystem /usr/include/eigen3 "$here/demo.cpp" -o "$tmp/demo" \
    -lboost_thread -lboost_system -lboost_chrono -lboost_atomic -lpthread || exit 4
cd "$tmp/run" && timeout 200 "$tmp/demo"
