#!/bin/bash
# developer helper: one line summary of an engine run
/usr/bin/time -f "%es" /verif/w.sh "$@" 2>&1 | python3 -c "
import sys,re
s=sys.stdin.read()
m=re.search(r'\"status\": \"(\w+)\"',s); p=re.search(r'\"paths\": (\d+)',s); c=re.search(r'\"covers\": (\{[^}]*\})',s); e=re.findall(r'([\d.]+)s\n',s)
print(sys.argv[1:],m and m[1],p and p[1],c and c[1],e[-1:])
if m and m[1]!='ok': print(s[:600])" "$@"
