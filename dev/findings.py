#!/usr/bin/env python3
# Writes known_findings.json: repaired defects from /repo's fix commits, and FIND below.
import json,os,subprocess
top=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP={ # first words of the commit message -> properties
}
T="""shifts convert:C11
an else-if condition is converted:C12
float conditions:C12
!= on floats:C12
comparisons of i1:C12
widening casts:C13
a constant binary operation:C10
a constant cast of a float:C10
@alloc and @sizeof know:C16
@realloc multiplies:C16
i1 has the size:C16
a struct literal stores:C19
a union is as aligned:C16
the update of a for loop:C14
statements are compiled unless:C14
a return in a block expression:C14
an anonymous function can't break:C14
function types and lists:C07
a switch without default:C09
statements after a return:C09
a block expression in an else-if:C09
++ and -- can't:C10
a function without parameters used:C06
an unknown attribute:C07
unary plus:C11
a comparison is emitted:C12
i1 casts to 1.0:C13
constants may be negative:C10
unsigned indices:C15
an assignment where:C06
the index of a computed:C15
arrays and pointers to arrays:C15
anonymous functions can't mutate:C10"""
from findlist import T2,FIND
for l in (T+T2).splitlines():
    if l.strip():
        a,b=l.rsplit(":",1); PROP[a]=b
out=[]
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h\t%s"],capture_output=True,text=True).stdout
for l in log.splitlines():
    h,s=l.split("\t")
    if not s.startswith("fix: "): continue
    m=[v for k,v in PROP.items() if s[5:].startswith(k)]
    if not m: print("no property for",s); m=["?"]
    out.append({"property":m[0],"status":"fixed","commit":h,"what":"fixed: property=%s %s %s"%(m[0],h,s[5:])})
json.dump(FIND+out,open(top+"/known_findings.json","w"),indent=1)
open(top+"/known_findings.json","a").write("\n")
print(len(out),"fixed,",len(FIND),"known")
