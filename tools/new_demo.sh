#!/bin/bash
# new_demo.sh ID : development aid. Starts seeded/ID with the demonstration template and the stand-ins it needs.
V=$(cd "$(dirname "$0")/.." && pwd); D=$V/seeded/$1; mkdir -p $D/inc
cp $V/tools/demo_template/demo.sh $D/; cp -r $V/standins/common/* $D/inc/; cp -r $V/standins/real/* $D/inc/; cp $V/tools/demo_template/net.hpp $D/inc/
