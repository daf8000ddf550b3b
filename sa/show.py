#!/usr/bin/env python3
"""debug helper: pretty-print bodies matching a regex"""
import json,re,sys
d=json.load(open(sys.argv[1]));T=d['tys']
def pl(p):
    s=f"_{p[0]}"
    for e in p[1:]:
        if e=='*': s=f"(*{s})"
        elif e[0]=='f': s+=f".{e[2] or e[1]}"
        elif e[0]=='d': s+=f" as {e[2]}"
        else: s+=str(e)
    return s
def op(o):
    if o[0] in('cp','mv'): return pl(o[1])
    c=o[1]
    if c['k']=='fn': return 'fn '+c['f'].get('rp',c['f']['p'])+('#%s'%c['f']['i'] if 'i' in c['f'] else '')+'{'+c['f']['k']+'}'
    if c['k']=='closure': return 'closure#%s'%c['i']
    return f"const {c.get('path','')} {c['v']}:{T[c['ty']][:40]}"+('#%s'%c['i'] if 'i' in c else '')
for b in d['bodies']:
    if re.search(sys.argv[2],b['path']):
        print('=====',b['id'],b['path'],b['full'][:150],b['kind'],b.get('upvars'),b.get('trait'))
        print({k:v for k,v in b['names'].items()})
        for i,bb in enumerate(b['blocks']):
            if bb['c']: continue
            print(f' bb{i}:')
            for s in bb['s']:
                if s[0]=='A':
                    r=s[2]
                    rs=' '.join(str(op(x)) if isinstance(x,list) and x and x[0] in('cp','mv','k') else (pl(x) if isinstance(x,list) and x and isinstance(x[0],int) else ('['+','.join(op(y) for y in x)+']' if isinstance(x,list) else str(x))) for x in r)
                    print(f'   {pl(s[1])} = {rs}')
            t=bb['t']
            if t[0]=='call': print('   ',pl(t[3]),'= CALL',op(t[1]),'(',', '.join(op(x) for x in t[2]),') ->',t[4],t[6])
            elif t[0]=='sw': print('    switch',op(t[1]),t[2],'else',t[3])
            else: print('   ',t)
