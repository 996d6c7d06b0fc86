#!/bin/bash
# locales.sh DIR: compiles the locales vf1..vf6 (radix character, separator and grouping as in Locales of ../spec/Text.tla)
set -eu
D=$1; rm -rf "$D"; mkdir -p "$D"
one ()   # name radix separator grouping
{
  for c in LC_CTYPE LC_COLLATE LC_MONETARY LC_TIME LC_MESSAGES LC_PAPER LC_NAME LC_ADDRESS LC_TELEPHONE LC_MEASUREMENT LC_IDENTIFICATION; do
    printf '%s\ncopy "en_US"\nEND %s\n' $c $c
  done > "$D/$1.src"
  printf 'LC_NUMERIC\ndecimal_point "%s"\nthousands_sep "%s"\ngrouping %s\nEND LC_NUMERIC\n' "$2" "$3" "$4" >> "$D/$1.src"
  localedef --no-archive -c -i "$D/$1.src" -f UTF-8 "$D/$1.UTF-8" >"$D/$1.log" 2>&1 || true
  [ -e "$D/$1.UTF-8/LC_NUMERIC" ] || { cat "$D/$1.log" >&2; exit 3; }
}
one vf1 , . 3 &
one vf2 . , '3;2' &
one vf3 '<U066B>' '<U066C>' '3;3' &
one vf4 , '<U202F>' 4 &
one vf5 , "'" '2;3;-1' &
one vf6 , '' -1 &
wait
