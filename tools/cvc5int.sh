#!/bin/sh
exec cvc5 --lang smtlib2.6 --produce-models --solve-bv-as-int=sum "$@"
