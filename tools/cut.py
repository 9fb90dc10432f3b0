import sys,re
for f in sys.argv[1:]:
    s=open(f).read(); i=s.find('#[cfg(test)]'); s=s if i<0 else s[:i]
    s=re.sub(r'^\s*//[/!]?.*\n','',s,flags=re.M)
    print('=====',f); print(s.strip())
