import sys,re
# usage: setcheck.py ID technique level note
pid,tech,lev,note=sys.argv[1:5]
p='/verif/tools/props_table.py'; s=open(p).read()
i=s.index('prop("%s"'%pid); j=s.find('\nprop("',i+5); j=len(s) if j<0 else j
blk=s[i:j].rstrip()
assert blk.endswith(')')
k=blk.find(',\n check=check(')
if k>=0: blk=blk[:k]+')'
blk=blk[:-1]+',\n check=check(%s, %s,\n  %s))\n'%tuple('"'+x.replace('"',"'")+'"' for x in (tech,lev,note))
s=s[:i]+blk+s[j:]
open(p,'w').write(s)
