import sys
s=open('/verif/spec/properties.py').read()
new=open(sys.argv[1]).read()
i=s.index("if __name__ ==")
open('/verif/spec/properties.py','w').write(s[:i]+new+'\n'+s[i:])
