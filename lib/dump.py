import facts,sys,json
p=facts.load(sys.argv[2] if len(sys.argv)>2 else 'src')
for f in p.find(sys.argv[1]):
    print('====',f['q'],f['id'],f['file'],f['line'],[ (x['n'],x['d'],x['t']) for x in f['params']])
    for b in f['blocks']:
        print('B',b['id'],{k:v for k,v in b.items() if k not in('e','id')})
        for e in b['e']:
            if isinstance(e,dict): print('   I',e); continue
            n=dict(f['nodes'][e]); 
            if 'fn' in n: n['fn']=n['fn']['q']
            print('   ',e,n)
    print({k:v for k,v in f['nodes'].items() if not any(k in b['e'] for b in f['blocks'])})
