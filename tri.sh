p=$1; rm -f /verif/evidence/replay/*; VP_MAX=3000 /verif/target/debug/vp $p quick > /tmp/tri.out 2>&1; tail -2 /tmp/tri.out
grep -hvE "^( |$|==|server|revision|property|seed|rerun)" /verif/evidence/replay/$p-*.txt 2>/dev/null| sed -E 's/insert of .* built by (rows|columns)/insert/; s/row [0-9]+/row N/; s/[0-9]{2,}/N/g' | cut -c1-${2:-180} | sort | uniq -c | sort -rn | head -${3:-60}
