#!/bin/bash
# mkt.sh Module Prefix: writes spec/ModuleTrace.tla and .cfg
cd "$(dirname "$0")/../spec"
sed "s/CondVar/$1/g; s/^----*/----------------------------/" CondVarTrace.tla > $1Trace.tla
sed "s/CV_/$2_/g" CondVarTrace.cfg > $1Trace.cfg
