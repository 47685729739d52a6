#!/bin/bash
# st.sh UNIT SECONDS: stack of a running unit
cd /verif
(setsid timeout -k 1 $(( $2 + 5 )) python3-vt -W ignore /tmp/t3.py $1 > /tmp/t3.out 2>&1 < /dev/null &) ; sleep $2
P=$(ps -eo pid,pcpu,args | grep t3.py | grep -v grep | grep -v timeout| sort -k2 -nr | head -1 | awk '{print $1}')
kill -USR1 $P; sleep 1; pkill -9 -f /tmp/t3.py; head -${3:-50} /tmp/t3.out
