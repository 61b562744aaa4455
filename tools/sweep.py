#!/usr/bin/env python3
# developer tool: sweep seeds for one property; prints violations, timing
import sys,subprocess,json,os,time,collections
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build
def run(B,prop,seed,kv=(),twice=False,timeout=120):
    out='/tmp/sw.%d.%s.%s.%s'%(os.getpid(),prop,seed,time.monotonic_ns())
    try:
        r=subprocess.run([B+'/sim','--bin',B,'--prop',prop,'--seed',str(seed),'--out',out]+list(kv),stdout=subprocess.PIPE,stderr=subprocess.PIPE,timeout=timeout)
    except subprocess.TimeoutExpired:
        return {'err':'timeout'}
    try:
        d=json.load(open(out)); os.remove(out); return d
    except Exception as e:
        return {'err':'rc %d %s'%(r.returncode,r.stderr.decode(errors='replace')[-300:])}
if __name__=='__main__':
    prop=sys.argv[1]; a,b=map(int,sys.argv[2].split('-')); kv=[x for x in sys.argv[3:] if '=' in x]
    progs=os.environ.get('PROGS','salsify-sender salsify-receiver').split()
    DEF=['-fsanitize=bounds-strict','-fsanitize-undefined-trap-on-error','-D_GLIBCXX_ASSERTIONS'] if 'bounds' in sys.argv else []
    B=build.build(progs,full='full' in sys.argv,access='access' in sys.argv,defines=DEF)
    t=time.time(); cnt=collections.Counter(); fl=collections.Counter(); worst=[]
    def one(s):
        t0=time.time(); d=run(B,prop,s,kv); d['wall']=time.time()-t0
        if 'det' in sys.argv:
            e=run(B,prop,s,kv)
            if e.get('trace')!=d.get('trace'): d['nondet']=True
        return s,d
    with ThreadPoolExecutor(int(os.environ.get("J","8"))) as ex:
        for s,d in ex.map(one,range(a,b)):
            worst.append((d['wall'],s))
            if 'err' in d: print('seed',s,'ERR',d['err']); continue
            if d.get('nondet'): print('seed',s,'NONDET')
            for v in d['violations']: print('seed',s,v['class'],v['msg'][:200],'t=%.3f'%(v['t']/1e9))
            cnt.update(d.get('counters',{})); fl.update(d.get('faults',{}))
    el=time.time()-t
    print('%d runs %.1f s; slowest %s'%(b-a,el,sorted(worst)[-3:]))
    print(dict(cnt)); print(dict(fl))
