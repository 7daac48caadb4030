#!/bin/sh
# rustc for the metered build: counts the basic blocks that on-chain code executes
rustc="$1"
shift
case " $* " in
*proc-macro*) ;;
*" --crate-name solana_"* | *" --crate-name spl_"* | *" --crate-name bytemuck "* | *" --crate-name sha2 "*)
	exec "$rustc" "$@" -Copt-level=1 -Cno-vectorize-loops -Cno-vectorize-slp -Cpasses=sancov-module \
		-Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc
	;;
esac
exec "$rustc" "$@"
