# sourced by check.sh: the command itself is run
MC_NEED_CLI=1
