import re,glob,os
out=[]
for m in ('codec','hello','conn','live','agent','misc','trace'):
    p=f'/verif/harness/src/{m}.rs'
    if os.path.exists(p):
        out+=[f'    {m}::{n},' for n in re.findall(r'^pub fn (c\d\d_\w+)\(\)',open(p).read(),re.M)]
open('/verif/harness/src/entries.rs','w').write('entries! {\n'+'\n'.join(out)+'\n}\n')
