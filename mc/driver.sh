#!/bin/sh
# go/packages external driver: answers with the package list the harness wrote.
# MC_SIGNAL="place signal delay" sends a signal to the caller: when the list of
# the standard library (std), or of the packages is asked (pkgs), or after it
# was given (given).
[ -z "$MC_SIGNAL" ] || set -- "$1" $MC_SIGNAL
stop() { kill -s "$1" $PPID; [ "$2" = 0 ] || sleep "$2"; }
if [ "$1" = std ]; then
	[ "$2" = std ] && stop "$3" "$4"
	exec cat "$MC_STDSTUB/std.json"
fi
[ "$2" = pkgs ] && stop "$3" "$4"
[ "$2" = given ] || exec cat ./.verif-pkgs.json
cat ./.verif-pkgs.json
stop "$3" "$4"
