#!/bin/bash
# compiles the Java implementation of spec/Num.tla; everything else is interpreted
cd "$(dirname "$0")" || exit 1
mkdir -p tlc/build evidence
javac -cp /opt/veriftools/tla/tla2tools.jar -d tlc/build tlc/java/tlc2/module/Num.java
