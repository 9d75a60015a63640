#!/bin/bash
. "$(dirname "$0")/kit.sh"
