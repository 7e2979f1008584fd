#!/bin/bash
# vfd PROP [regex]: dev run
cd /verif; export VF_VERBOSE=1; [ -n "$2" ] && export VF_ONLY="$2"
timeout ${T:-900} python3 check.py $1 > /tmp/vfd.out 2>&1
grep -q "goto-cc failed\|CONVERSION ERROR" /tmp/vfd.out && { grep -m1 "CONVERSION ERROR\|goto-cc" /tmp/vfd.out | tail -c 500; exit; }
grep -v "^VIOLATION\|  *proved  " /tmp/vfd.out | cut -c1-${W:-330} | awk '{k=substr($0,60,200); if(/^note/ && seen[k]++) next; print}'
