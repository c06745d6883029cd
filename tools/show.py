#!/usr/bin/env python3
import json,sys
d=json.load(open('/verif/build/mir.json'))
def pl(p):
    s=f"_{p[0]}"
    for e in p[1]:
        s = f"(*{s})" if e[0]=='deref' else s+'.'+'/'.join(str(x) for x in e[:2])
    return s
def op(o):
    if o[0]=='const': return 'const '+json.dumps(o[1])[:150]
    return o[0]+' '+pl(o[1])
def rv(r):
    if r[0]=='aggr': return f"aggr {r[1]} [{', '.join(map(op,r[2]))}]"
    if r[0]in('bin','cbin'): return f"{r[0]} {r[1]} {op(r[2])}, {op(r[3])}"
    if r[0]=='use': return op(r[1])
    if r[0]=='ref': return ('&mut ' if r[1] else '&')+pl(r[2])
    if r[0]=='cast': return f"cast {r[1]} {op(r[2])} as {r[3]}"
    if r[0]in('discr','len','addr'): return f"{r[0]} {pl(r[1])}"
    return json.dumps(r)
for k,f in d['fns'].items():
    if sys.argv[1] in f['name']:
        print('fn',f['name'],f['file'],f['line'],'args',f['args'],'spread',f['spread'])
        for i,l in enumerate(f['locals']): print('   let',i,l)
        for i,b in enumerate(f['blocks']):
            print(' bb',i)
            for s in b['s']: print('    ',pl(s['p']) if 'p' in s else s,'=',rv(s['r']) if 'r' in s else '')
            t=b['t']
            if t['t']=='call': print('    call',pl(t['dest']),'=',t['f']['name'],'|',t['f'].get('def'),t['f']['kind'],[op(a) for a in t['args']],'->',t['target'])
            elif t['t']=='switch': print('    switch',op(t['d']),t['br'],t['other'])
            elif t['t']=='assert': print('    assert',op(t['c']),t['exp'],t['msg'],t['target'])
            else: print('   ',t)
