import subprocess,sys,re
def sub(path, a, b, n=1):
    s=open('/tmp/dev/'+path).read()
    assert s.count(a)==n, (path,a,s.count(a))
    open('/tmp/dev/'+path,'w').write(s.replace(a,b))
def commit(pid, msg):
    files=subprocess.run(["git","-C","/tmp/dev","diff","--name-only"],capture_output=True,text=True).stdout.split()
    out=subprocess.run(["gofmt","-l"]+[f for f in files],cwd="/tmp/dev",capture_output=True,text=True).stdout.strip()
    if out: print("GOFMT:",out)
    subprocess.run(["go","build","./..."],check=True,cwd="/tmp/dev")
    subprocess.run(["git","-C","/tmp/dev","commit","-qam",msg],check=True)
    h=subprocess.run(["git","-C","/tmp/dev","rev-parse","--short","HEAD"],capture_output=True,text=True).stdout.strip()
    for p in pid.split(','):
        open('/verif/known_findings.txt','a').write("fixed: property=%s %s %s\n"%(p,h,msg.split('\n')[0][5:]))
def merge():
    """bring the commits of /tmp/dev to /repo (not while vcheck runs)"""
    h=subprocess.run(["git","-C","/tmp/dev","rev-parse","HEAD"],capture_output=True,text=True).stdout.strip()
    subprocess.run(["git","-C","/repo","merge","-q","--ff-only",h],check=True)
