import json,os,shutil,subprocess,tempfile
def seed(id, prop, edits, needs, breaks, demo):
    """Writes seeded/<id>; edits are (path, old, new) on /repo, in a scratch copy."""
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    tmp=tempfile.mkdtemp(prefix='mkseed-'); repo=tmp+'/repo'
    try:
        shutil.copytree('/repo',repo)
        for path,old,new in edits:
            p=repo+'/'+path; s=open(p).read(); assert s.count(old)==1,(id,s.count(old),old); open(p,'w').write(s.replace(old,new))
        diff=subprocess.run(['git','-C',repo,'diff'],capture_output=True,text=True).stdout
    finally:
        shutil.rmtree(tmp)
    open(d+'/patch.diff','w').write(diff)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.sh','w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.py','w').write(demo)
