import re,collections,sys
d=collections.defaultdict(lambda:[0,0,0.0,0.0])
for l in open(sys.argv[1]):
    r=re.match(r'(\S+) .*status (\d) execs (\d+) .* ([\d.]+)s known',l)
    if r:
        x=d[r[1]]; x[0]+=1; x[1]+=int(r[3]); x[2]+=float(r[4]); x[3]=max(x[3],float(r[4]))
    elif 'status' not in l: print(l.rstrip()[:600])
print("config, n, execs, total s, max s")
for k,v in sorted(d.items(),key=lambda x:-x[1][2])[:int(sys.argv[2]) if len(sys.argv)>2 else 15]: print(k,v[0],v[1],round(v[2],2),round(v[3],2))
