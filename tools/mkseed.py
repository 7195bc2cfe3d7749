import sys,subprocess,os,json
# mk.py id file old new property needs breaks
def mk(id, prop, edits, needs, breaks):
    w='/tmp/mkseed'
    subprocess.run(['rm','-rf',w]); subprocess.run(['git','clone','-q','/repo',w],check=True)
    for f,a,b in edits:
        p=os.path.join(w,f); s=open(p).read()
        assert s.count(a)==1,(f,s.count(a),a)
        open(p,'w').write(s.replace(a,b))
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    out=subprocess.run(['git','-C',w,'diff'],capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(out)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    sh=d+'/demo.sh'
    if not os.path.exists(sh):
        open(sh,'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    for f in ('demo_env.py',):
        if not os.path.exists(d+'/'+f): open(d+'/'+f,'w').write(open('/verif/tools/demolib/'+f).read())
    subprocess.run(['rm','-rf',w])
