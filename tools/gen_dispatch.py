#!/usr/bin/env python3
"""Writes mc/dispatch_gen.go: a plugin with a method for every signature."""
T={'s':'string','c':'booklit.Content','n':'ast.Node','i':'int','t':'[]string','q':'booklit.String','p':'*booklit.Section','e':'error','x':'ast.Sequence','b':'bool','w':'interface{}'}
R={'o':'','e':'error','c':'booklit.Content','ce':'(booklit.Content, error)',
   'st':'string','in':'int','se':'(string, error)','cs':'(booklit.Content, string)','sb':'booklit.String','ec':'(error, booklit.Content)','cce':'(booklit.Content, booklit.Content, error)','sq':'(booklit.Sequence, error)','bo':'(booklit.Content, bool)'}
RET={'o':'','e':'return o.err','c':'return o.c','ce':'return o.c, o.err','st':'return "st"','in':'return 1','se':'return "se", o.err','cs':'return o.c, "cs"','sb':'return booklit.String("sb")','ec':'return o.err, o.c','cce':'return o.c, o.c, o.err','sq':'return booklit.Sequence{}, o.err','bo':'return o.c, true'}
import itertools
sigs=[]
good=['']+[a for a in 'scn']+[a+b for a in 'scn' for b in 'scn']
for p in good:
    for r in ('o','e','c','ce'): sigs.append((p,r))
for p in ('','s','c','n'):
    for v in 'scn':
        for r in ('o','e','c','ce'): sigs.append((p+v.upper(),r))
for p in ('i','si','is','ci','nI','I','t','q','p','e','x','b','w'): sigs.append((p,'c'))
for r in ('st','in','se','cs','sb','ec','cce','sq','bo'):
    for p in ('','c'): sigs.append((p,r))
def fname(p,r):
    parts=['f']+[('v'+x.lower()) if x.isupper() else x for x in p]+['r',r]
    return '-'.join(parts)
out=['// Code generated by tools/gen_dispatch.py; DO NOT EDIT.','','package main','','import (','\t"github.com/vito/booklit"','\t"github.com/vito/booklit/ast"',')','','type d1 struct{ dispatcher }','']
for p,r in sigs:
    fn=fname(p,r)
    m=''.join(w.capitalize() for w in fn.split('-'))
    params=[];args=[]
    for i,x in enumerate(p):
        if x.isupper():
            params.append('a%d ...%s'%(i,T[x.lower()])); args.append('a%d'%i)
        else:
            params.append('a%d %s'%(i,T[x])); args.append('a%d'%i)
    call='p.call("%s"%s)'%(fn,''.join(', '+a for a in args))
    body=('o := '+call+'\n\t'+RET[r]) if 'o.' in RET[r] else (call+('\n\t'+RET[r] if RET[r] else ''))
    out.append('func (p *d1) %s(%s) %s {\n\t%s\n}\n'%(m,', '.join(params),R[r],body))
out.append('var d1sigs = map[string]dsig{')
for p,r in sigs: out.append('\t"%s": {"%s", "%s"},'%(fname(p,r),p,r))
out.append('}')
open('/verif/mc/dispatch_gen.go','w').write('\n'.join(out)+'\n')
