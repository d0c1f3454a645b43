#!/bin/bash
# Builds the fact extractor (clang 14 LibTooling) into /verif/.build; nothing else is compiled.
set -e
cd "$(dirname "$0")"
mkdir -p .build
if [ ! -x .build/extract ] || [ extract/extract.cpp -nt .build/extract ]; then
	t=.build/extract.$$
	g++ -O1 -std=gnu++17 -fno-rtti -w -I/usr/lib/llvm-14/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
		extract/extract.cpp -o "$t" /usr/lib/llvm-14/lib/libclang-cpp.so.14 /usr/lib/llvm-14/lib/libLLVM-14.so -Wl,-rpath,/usr/lib/llvm-14/lib
	mv "$t" .build/extract
fi
