import json,sys
p='/verif/known_findings.json'
k=json.load(open(p))
prop,commit,fn,msg=sys.argv[1:5]
L=k if isinstance(k,list) else k[[x for x in k if isinstance(k[x],list)][0]]
L.append({"property":prop,"status":"fixed","commit":commit,"function":fn,"message":"fixed: property=%s %s %s"%(prop,commit,msg)})
json.dump(k,open(p,'w'),indent=1); open(p,'a').write('\n')
