#!/bin/bash
# orig.sh ID...: lines that the patch of a planted bug removes and that are not of the original repository
base=93cc5ff
for id in "$@"; do
  python3 - "$id" "$(dirname "$0")/../seeded/$id/patch.diff" <<P
import sys,subprocess
f=None;bad=[];n=0
for l in open(sys.argv[2]):
    if l.startswith('--- '): f=l[6:].strip(); orig=subprocess.run(['git','-C','/repo','show','$base:'+f],capture_output=True,text=True).stdout.split('\n')
    elif l.startswith('-'):
        n+=1
        if l[1:].rstrip('\n') not in orig: bad.append(l.rstrip())
print(sys.argv[1],n,'removed,',len(bad),'not original',bad[:3])
P
done
