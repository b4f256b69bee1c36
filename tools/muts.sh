# usage: muts.sh PROP CASES FILE  then stdin lines: old ||| new   (one mutation per line, \n allowed)
P=$1; N=$2; F=$3
while IFS= read -r line; do
  [ -z "$line" ] && continue
  old=$(printf '%b' "${line%%|||*}"); new=$(printf '%b' "${line#*|||}")
  r=$(python3 /verif/tools/mut.py $P "$F" "$old" "$new" $N | grep -E 'failure|EXIT|cases=|pattern' | cut -c1-170 | tr '\n' ' ')
  echo "[$old => $new] :: $r"
done
