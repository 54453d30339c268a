import re,os,sys
INC=re.compile(r'^\s*#\s*include\s*[<"]([^>"]+)[>"]',re.M)
MISS=re.compile(r"^(takatori|yugawara|mizugaki|sharksfin|limestone|shirakami|data.relay.grpc|altimeter|arrow|parquet)/|^decimal\.hh$|^tateyama/(?!proto/kvs/)")
repo='/repo'
def resolve(p,h):
    for b in (os.path.dirname(p),repo+'/include',repo+'/src',repo+'/mock'):
        q=os.path.normpath(os.path.join(b,h))
        if os.path.isfile(q): return q
def closure(p):
    seen={p};st=[p];miss={}
    while st:
        c=st.pop()
        for h in INC.findall(open(c,errors='replace').read()):
            q=resolve(c,h)
            if q is None:
                if MISS.search(h): miss.setdefault(h,[]).append(os.path.relpath(c,repo))
            elif q not in seen: seen.add(q);st.append(q)
    return seen,miss
if __name__=='__main__':
    allm={}
    for a in [x for x in sys.argv[1:] if x!="-q"]:
        s,m=closure(os.path.join(repo,a))
        print(a,len(s),len(m))
        for k,v in m.items(): allm.setdefault(k,set()).update(v)
    if "-q" not in sys.argv: [print("  ",k,len(allm[k]),sorted(allm[k])[:2]) for k in sorted(allm)]
