#!/bin/sh
# stands in for the linker: only the bitcode rustc saved is wanted
while [ $# -gt 0 ]; do
  if [ "$1" = "-o" ]; then : > "$2"; exit 0; fi
  shift
done
exit 0
