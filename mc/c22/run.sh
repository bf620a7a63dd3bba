# sourced by check.sh
export MC_NEED_CLI=1
