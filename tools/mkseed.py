import subprocess,sys,json,os,shutil
# usage: mk(id, file, old, new, prop, needs, breaks, hooks{module:src})
def mk(id, edits, prop, needs, breaks, hooks):
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    w='/tmp/seed/w'
    if not os.path.exists(w): subprocess.check_call(['git','-C','/repo','worktree','prune']); subprocess.check_call(['git','clone','-q','/repo',w])
    subprocess.check_call(['git','-C',w,'fetch','-q','origin']); subprocess.check_call(['git','-C',w,'reset','-q','--hard','origin/HEAD'])
    for f,old,new in edits:
        p=f'{w}/{f}'; s=open(p).read(); assert s.count(old)==1,(f,s.count(old),old); open(p,'w').write(s.replace(old,new))
    diff=subprocess.check_output(['git','-C',w,'diff'],text=True); open(f'{d}/patch.diff','w').write(diff)
    subprocess.check_call(['git','-C',w,'checkout','-q','--','.'])
    shutil.copy('/verif/tools/demo.sh',f'{d}/demo.sh'); os.chmod(f'{d}/demo.sh',0o755)
    for m,s in hooks.items(): open(f'{d}/hook_{m}.rs','w').write(s)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f'{d}/meta.json','w'),indent=1)
