import json,sys,glob,os
fs=sorted(glob.glob('/verif/evidence/replays/*.json'),key=os.path.getmtime)
f=sys.argv[1] if len(sys.argv)>1 else fs[-1]
d=json.load(open(f))
print(d.get('what')); 
for x in (d.get('case') or []): print('CASE',x)
for s in d.get('steps',[]):
    if s['what']=='file':
        print('FILE',s['path']); print('   ',s.get('text','')[:900].replace('\n','\n    '))
    elif s['what']=='run':
        print('RUN',s['args'],'stdin=%r'%s.get('stdin'),'exit',s.get('exit')); print('  calls',s.get('module_calls')); print('  out:',s.get('stdout','')[-int(os.environ.get('N','1500')):].replace('\n','\n    ')); print('  err:',s.get('stderr','')[-600:])
    else: print(s)
