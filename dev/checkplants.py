"""Does every planted bug change lines of the original repository (or only insert)?"""
import subprocess,sys,pathlib,re
base=sys.argv[1] if len(sys.argv)>1 else "8a8ac3a"
bad=0
for d in sorted(pathlib.Path(__file__).resolve().parent.parent.joinpath("seeded").iterdir()):
    f=None;cur=[]
    for l in (d/"patch.diff").read_text().splitlines():
        if l.startswith("--- a/"): f=l[6:]; txt=subprocess.run(["git","-C","/repo","show",f"{base}:{f}"],capture_output=True,text=True).stdout.splitlines(); S=set(txt)
        elif l.startswith("-") and not l.startswith("---"):
            cur.append(l[1:] in S)
    if cur and not any(cur): print(d.name,"removes only lines that fixes added"); bad=1
sys.exit(bad)
