#!/bin/bash
# buildpy.sh DIR REPO: builds the Python module of REPO into DIR; DIR/python names the interpreter
D=$1; R=$2
[ -f /opt/vp/env.sh ] && PYX=$(bash -c '. /opt/vp/env.sh >/dev/null 2>&1; echo $PY')
for p in "$PYX" python3 /usr/bin/python3; do [ -n "$p" ] && "$p" -m pybind11 --includes >/dev/null 2>&1 && PY=$p && break; done
[ -n "$PY" ] || { echo "no Python with pybind11"; exit 1; }
SUF=$($PY -c 'import sysconfig; print(sysconfig.get_config_var("EXT_SUFFIX"))')
cd "$R/src" && g++ -w -O1 -std=c++11 -fPIC -shared -D_GLIBCXX_ASSERTIONS $($PY -m pybind11 --includes) wisard_bind.cc -o "$D/wisardpkg$SUF" || exit 1
command -v "$PY" > "$D/python"
