import sys,subprocess,time,re; sys.path.insert(0,'/verif/vf')
import build
b=build.Builder(); t=time.time()
name=sys.argv[1]; f=sys.argv[2]
fl=b.flags(name,"-O0")
p=subprocess.run(["g++",*fl,"-I/verif/vf","-I/repo/lib","-fsyntax-only",f],stderr=subprocess.PIPE,text=True)
open('/tmp/m/err','w').write(p.stderr)
print(time.time()-t)
for l in p.stderr.splitlines():
    if re.search(r"vf/\w+\.(cc|h):\d+:\d+:\s+required from here",l) or " error:" in l: print(l[:330])
