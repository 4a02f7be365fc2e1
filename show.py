import json,sys
for f in sys.argv[1:]:
    d=json.load(open(f))
    for k,v in d.items():
        if isinstance(v,list): 
            print(k,len(v))
            for x in v[:60]: print("   ",x)
        else: print(k,str(v)[:1500])
