import json,os,sys,io,contextlib,traceback,shutil,multiprocessing as mp
sys.path.insert(0,'/repo')
import warnings; warnings.simplefilter('ignore')
from paconvert.converter import Converter
import paconvert.utils as U
cases=json.load(open('/tmp/x/all.json'))
import logging
def child(i,code,base):
    d=f'{base}/{i}'; os.makedirs(d+'/in')
    open(d+'/in/m.py','w').write(code)
    r={}
    c=Converter(log_dir=d+'/log',log_level='WARNING')
    try:
        r['ret']=c.run(d+'/in',d+'/out')
        r['code']=open(d+'/out/m.py').read().replace(d,'@')
        r['utils']=open(d+'/out/paddle_utils.py').read() if os.path.exists(d+'/out/paddle_utils.py') else None
        r['cnt']=c.torch_api_count; r['all']=sum(v['count'] for v in c.all_api_map.values()); r['uns']=sum(c.unsupport_api_map.values())
        r['names']=sum(U.Generator.ids.values())-1
    except BaseException as e:
        r['exc']=repr(e)[:200]
    shutil.rmtree(d)
    return r
def chunk(a):
    k,idx=a
    base=f'/dev/shm/solo{k}'; os.makedirs(base,exist_ok=True)
    out=[]
    for i in idx:
        rd,wr=os.pipe()
        pid=os.fork()
        if pid==0:
            os.close(rd)
            r=child(i,cases[i][1],base)
            with os.fdopen(wr,'w') as f: json.dump(r,f)
            os._exit(0)
        os.close(wr)
        with os.fdopen(rd) as f: s=f.read()
        os.waitpid(pid,0)
        out.append((i,json.loads(s)))
    shutil.rmtree(base)
    return out
if __name__=='__main__':
    import time; t=time.time()
    with mp.Pool(8) as p:
        res=dict(sum(p.map(chunk,[(k,list(range(k,len(cases),8))) for k in range(8)]),[]))
    print(time.time()-t)
    json.dump(res,open('/tmp/x/solo.json','w'))
    n=len(res)
    print(n,'exc',sum('exc' in r for r in res.values()),'utils',sum(bool(r.get('utils')) for r in res.values()),'names',sum(r.get('names',0)>0 for r in res.values()))
    print('all!=cnt',[ (cases[i][0],r['cnt'],r['all'],r['uns'],r['ret']) for i,r in res.items() if 'cnt' in r and r['cnt']!=r['all']][:10])
    print('uns!=fail',[ (cases[i][0],r['cnt'],r['all'],r['uns'],r['ret']) for i,r in res.items() if 'cnt' in r and r['ret'][1]!=r['uns']][:10])
    for i,r in list(res.items()):
        if 'exc' in r: print(cases[i][0],r['exc'])
