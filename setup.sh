#!/bin/bash
exec bash "$(dirname "$0")/check.sh" --setup
