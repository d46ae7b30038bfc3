cd /verif; e=$1; n=$2; shift 2
/usr/bin/time -f "%es %MKB" .build/vse .build/harness.bc --entry $e --param $n --out /tmp/o.json --time 600 "$@"; echo rc $?; python3 -c "
import json;j=json.load(open('/tmp/o.json'));s=j['stats'];print(j['complete'],j['error'],{k:s[k] for k in s if k in('final_states','states','merges','merge_refusals','instructions','checks','checks_solver','queries','cache_hits','model_hits','domain_decisions','solver_s','total_s','overlaps','exprs')},j['violations'][:2],list(j['covers']))"
