"""Makes data/cover.json.gz: few snippets that go every way through the code that any known snippet goes.

Run with the repository's Python from /verif: python tools/mkcover.py
"""
import sys,os,tempfile,collections,ast,re,json,random,gzip,multiprocessing as mp
sys.path.insert(0,"/repo"); HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,HERE)
from sim import gen
def work(chunk):
    from paconvert.converter import Converter
    from paconvert.utils import UtilsFileHelper
    res=[]
    d=tempfile.mkdtemp()
    arcs=set()
    ids={}
    def fid(code):
        if code not in ids:
            f=code.co_filename
            ids[code]=f[len("/repo/paconvert/"):] if f.startswith("/repo/paconvert/") and not f.endswith(("converter.py","utils.py","global_var.py")) else None
        return ids[code]
    def tr(frame,ev,arg):
        f=fid(frame.f_code)
        if f is None: return None
        last=[-frame.f_lineno]
        def loc(frame,ev,arg):
            if ev=="line":
                arcs.add((f,last[0],frame.f_lineno)); last[0]=frame.f_lineno
            return loc
        return loc
    for i,code in chunk:
        open(d+"/a.py","w").write(code)
        arcs.clear()
        ok=True
        c=Converter(log_dir="disable",log_level="ERROR",no_format=True)
        sys.settrace(tr)
        try: c.run(d+"/a.py",d+"/b.py")
        except BaseException as e: ok=False
        sys.settrace(None)
        if ok: res.append((i,len(code),frozenset(arcs)))
    return res
if __name__=="__main__":
    rng=random.Random(7)
    codes=list(dict.fromkeys(gen.corpus()["all"]))+list(gen.HAND.values())
    n0=len(codes)
    codes+=[gen.calls(rng,rng.choice([1,2,3])) for _ in range(12000)]
    codes=[c for c in codes if "\r" not in c]
    L=list(enumerate(codes))
    with mp.Pool(3) as p: R=[x for r in p.imap_unordered(work,[L[i::200] for i in range(200)],1) for x in r]
    R.sort()
    print(len(codes),n0,"ok",len(R))
    cnt=collections.Counter(a for _,_,A in R for a in A)
    print("arcs",len(cnt))
    # greedy: rarest arcs first, cheapest snippet covering most uncovered
    unc=set(cnt); chosen=[]
    by=collections.defaultdict(list)
    for r in R:
        for a in r[2]: by[a].append(r)
    for a in sorted(cnt,key=lambda a:(cnt[a],a)):
        if a not in unc: continue
        best=max(by[a],key=lambda r:(len(r[2]&unc)/(60+r[1]),-r[0]))
        chosen.append(best); unc-=best[2]
    print("chosen",len(chosen),sum(r[1] for r in chosen), sum(r[0]>=n0 for r in chosen))
    with gzip.GzipFile(HERE+"/data/cover.json.gz","wb",mtime=0) as f: f.write(json.dumps([codes[r[0]] for r in chosen],ensure_ascii=False).encode())
