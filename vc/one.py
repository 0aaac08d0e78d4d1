import sys, time, traceback
import engine
ll=sys.argv[1]; want=sys.argv[2] if len(sys.argv)>2 else ''
opts={'verbose':True}
for a in sys.argv[3:]:
    k,_,v=a.partition('='); opts[k]=int(v) if v.lstrip('-').isdigit() else (v or True)
t=time.time()
e0=engine.Engine(ll,opts)
names=[n for n in e0.M.funcs if n.startswith('contract_') and want in n]
print('parsed',round(time.time()-t,2),names)
for n in names:
    e=engine.Engine(ll,opts); e.deadline=time.time()+opts.get("deadline",300)
    t=time.time()
    try:
        outs=e.call(engine.State(),n,[])
        e.finish(outs)
        print(n,'outcomes',[(o.kind,o.val) for o in outs])
    except Exception as ex:
        if '-tb' or not isinstance(ex,engine.Unsupported): traceback.print_exc()
    st={}
    for o in e.obls: st[(o.kind,o.status)]=st.get((o.kind,o.status),0)+1
    print(n,st,'reached',e.reached,'trusted',list(e.trusted),'secs',round(time.time()-t,2),'solver',round(e.solver_secs,2))
    for o in e.obls:
        if o.kind=='assert' or o.status!='valid': print('   ',o.js())
