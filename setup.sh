#!/bin/bash
# Offline build of the simulator from the committed files.
cd "$(dirname "$0")" && exec ./build.sh
