import json,subprocess
log=subprocess.run("git -C /repo log --format='%h %s' 215277f..HEAD",shell=True,capture_output=True,text=True).stdout.strip().split("\n")
M={"removeEdge rejects":("C01","removeEdge(id == number of slots) read past the end instead of reporting out of range"),
"removing an edge also":("C03","a removed edge stayed in the in/out lists of its nodes (dangling pointer)"),
"graph iterators":("C02","iterators dereferenced the end slot and begin() returned a removed first edge"),
"covarInverse":("C30","covarInverse tested off-diagonal zeros instead of the eigenvalues, so negative/zero eigenvalues were never floored or rejected"),
"split terminates":("C32","split with an empty token never terminated"),
"copying a grid":("C08","the copy constructor doubled the number of slots and dereferenced empty ones"),
"grid bounds":("C04","points exactly on the right or lower border were inside the grid but addressed a slot of the next row or past the end; growth to fit them was zero; borders were rounded to float"),
"removeCell":("C04","removeCell had no return value for a position inside the grid (undefined behaviour)"),
"number of valid":("C07","the number of valid cells ignored clear, translate and cells created by rayTrace"),
"getCentroid":("C04","getCentroid subtracted a member function name, so it could not be instantiated"),
"degenerate covariance":("C14","a covariance with an eigenvalue of zero kept its Gaussian with infinite inverse"),
"zero length ray":("C16","a ray of zero length or along a flat direction set the occupancy to NaN"),
"setOccupancy scales":("C11","setOccupancy stored its percentage unscaled, so getOccupancy read back 100 or -100"),
"line search":("C33","trial steps behind the lower end of the interval took the maximiser of the interpolating cubic"),
"ray shorter":("C09","a ray shorter than one cell ran until it left the grid; a zero-length ray addressed the cells with NaN"),
"restore the switch":("C25","pop restored the g2o estimate but not the value the switch edges read"),
"without components":("C28","computeBestEdge of a mixture without components reported an index that was never set"),
"replace the earlier":("C28","components given to a used mixture were appended to the determinants and weights of the earlier ones, so the wrong normaliser was used"),
"merging into a resized":("C36","merging with resizing replaced the cell at the same place, losing the points merged earlier"),
"serialized map":("C39","the corner of a serialised map was computed from a negated unsigned number and its heading was never set"),
"cloud of means follows":("C38","a map constructed with an origin had no cloud of means, and clear left the old one in place"),
}
import sys
fixed=[]
for l in reversed(log):
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    k=[k for k in M if k in s]
    assert len(k)==1,(s,k)
    p,w=M[k[0]]
    fixed.append("fixed: property=%s %s %s"%(p,h,w))
try: old=json.load(open('/verif/known_findings.json'))["findings"]
except Exception: old=[]
json.dump({"findings":old,"fixed":fixed},open('/verif/known_findings.json','w'),indent=1)
print("\n".join(fixed))
