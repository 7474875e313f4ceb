"""mkseed: make /verif/seeded/<id> from edits applied in /repo's include dir"""
import os, subprocess, json, sys
R=os.environ.get('SEEDREPO','/repo')
def mk(id, prop, edits, demo, needs, breaks, flags='', deps=''):
    d='/verif/seeded/'+id; os.makedirs(d, exist_ok=True)
    assert not subprocess.run(['git','-C',R,'status','--short'],stdout=subprocess.PIPE).stdout
    try:
        for f,a,b in edits:
            p=R+'/include/libflatarray/'+f; s=open(p).read()
            assert a in s,(id,f,a)
            n=s.count(a)
            assert n==1,(id,f,'count',n,a)
            open(p,'w').write(s.replace(a,b))
        diff=subprocess.run(['git','-C',R,'diff'],stdout=subprocess.PIPE).stdout
        open(d+'/patch.diff','wb').write(diff)
    finally: subprocess.run(['git','-C',R,'checkout','-q','--','.'])
    open(d+'/demo.cpp','w').write(demo)
    os.makedirs(d+'/cfg/libflatarray',exist_ok=True)
    open(d+'/cfg/libflatarray/config.h','w').write('#ifndef LIBFLATARRAY_CONFIG_H\n#define LIBFLATARRAY_CONFIG_H\n#define LIBFLATARRAY_WITH_CPP14 1\n#endif\n')
    open(d+'/demo.sh','w').write('''#!/bin/bash
# cwd: /repo. exit 0: behaves as the property says; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++14 -O1 -w %s -I"$here/cfg" -Iinclude "$here/demo.cpp" -o "$tmp/demo" || exit 2
"$tmp/demo"
''' % flags)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
