#!/bin/sh
# stands in for a prover: keeps the obligation it is given
exec cp "$1" "$2/$(date +%s%N).smt2"
