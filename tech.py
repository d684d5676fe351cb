import json,sys
t=json.load(open('/verif/techniques.json'))
t[sys.argv[1]]=[sys.argv[2],sys.argv[3]]
json.dump(t,open('/verif/techniques.json','w'),indent=1)
