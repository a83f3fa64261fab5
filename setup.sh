#!/bin/bash
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. /opt/vp/env.sh
go build -o /dev/null ./cmd/jxlmc
