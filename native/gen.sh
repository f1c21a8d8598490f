#!/bin/bash
# generates the configured headers of the project (fdb5_config.h, fdb5_version.h, chunked_data_view_version.h) into $1
set -e
G=$1
. /opt/vp/env.sh
mkdir -p $G/cm
cat > $G/cm/CMakeLists.txt <<'C'
cmake_minimum_required(VERSION 3.28)
set(REPO /repo)
file(STRINGS ${REPO}/VERSION V LIMIT_COUNT 1)
string(STRIP "${V}" fdb5_VERSION_STR)
project(fdb5 VERSION ${fdb5_VERSION_STR} LANGUAGES NONE)
set(fdb5_GIT_SHA1 "")
set(fdb5_HAVE_TOCFDB ON)
set(fdb5_HAVE_DUMMY_DAOS ON)
set(fdb5_HAVE_DAOSFDB ON)
set(fdb5_HAVE_DAOS_ADMIN ON)
set(fdb5_HAVE_GRIB ON)
set(chunked_data_view_VERSION ${fdb5_VERSION})
set(chunked_data_view_VERSION_STRING ${fdb5_VERSION_STR})
file(WRITE ${OUT}/fdb5/fdb5_ecbuild_config.h "#ifndef fdb5_ecbuild_config_h\n#define fdb5_ecbuild_config_h\n#endif\n")
configure_file(${REPO}/src/fdb5/fdb5_config.h.in ${OUT}/fdb5/fdb5_config.h)
configure_file(${REPO}/src/fdb5/fdb5_version.h.in ${OUT}/fdb5/fdb5_version.h)
configure_file(${REPO}/src/fdb5/fdb5_version.c.in ${OUT}/fdb5/fdb5_version.c)
configure_file(${REPO}/src/chunked_data_view/chunked_data_view_version.h.in ${OUT}/chunked_data_view/chunked_data_view_version.h @ONLY)
C
cmake -S $G/cm -B $G/cm/b -DOUT=$G > $G/cm/log 2>&1 || { cat $G/cm/log; exit 1; }
