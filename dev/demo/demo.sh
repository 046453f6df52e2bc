#!/bin/bash
# Builds the recording plug-in and the demonstration against /repo's build, runs it in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export DEMO_TMP=$(mktemp -d)
trap 'rm -rf "$DEMO_TMP"' EXIT
cp "$here"/*.cpp "$here"/*.h "$DEMO_TMP"/ || exit 3
cd "$DEMO_TMP" || exit 3
I="-I$R/parameter/include -I$R/parameter/log/include -I$R/_build/parameter -I$R/parameter -I$R/utility -I$R/xmlserializer
 -I$R/remote-processor -I$R/_build/remote-processor -I$R/_build/xmlserializer -I$R/bindings/c -I$R/_build/bindings/c -I/usr/include/libxml2"
L="-L$R/_build/lib -lparameter -lremote-processor -lcparameter -Wl,-rpath,$R/_build/lib:$DEMO_TMP"
export LD_LIBRARY_PATH=$R/_build/lib:$DEMO_TMP
{ g++ -std=c++11 -g -fPIC -shared $I rec.cpp -o librec.so $L &
  g++ -std=c++11 -g -c $I demo.cpp -o demo.o & wait; } || exit 3
g++ demo.o -o demo -L. -lrec $L -lpthread -lxml2 || exit 3
timeout 120 ./demo
