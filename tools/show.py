import json,sys,collections
d=json.load(open(sys.argv[1]))
c=collections.Counter(); ex={}
for i in d['results']:
    for m,w in i['undecided']:
        c[w]+=1; ex.setdefault(w,m)
    for r in i['reports']:
        print("REPORT",r['kind'],"def" if r['definite'] else "MAYBE",r['method'],'['+r['entry']+']',r['where'],r['msg'],'|',r['model'], 'EXC' if r['exceptional'] else '')
        if len(sys.argv)>2:
            for p in r['path']: print('      ',p)
for w,n in c.most_common(): print(n,w,'  e.g.',ex[w])
if len(sys.argv)>2 and sys.argv[2]=='t':
    for i in sorted(d['results'],key=lambda i:-i['wall'])[:15]: print('%.1f'%i['wall'],i['cfg'],i['method'])
