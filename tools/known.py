# writes known-findings.json: the repaired defects, and the call sites of C12 that are recorded rather than repaired
import json, re, sys
L='the identifier stays in its own path segment and adds no query or fragment'
fixed=[
 ('C01','61911b1','an error response whose JSON body is null, a string, a number or a boolean was returned as that value, so error could be null or not an object'),
 ('C02','61911b1','an error response whose JSON body is not an object was not reported as application_error with its status'),
 ('C07','9996b13','batch.send/create lost caller headers given as a Headers instance or as a list of pairs'),
 ('C10','39f451b','batch.send/create wrote rendered html into, and removed react from, the caller’s emails'),
 ('C24','e80eec8','forwarding decoded the raw message as UTF-8 text before parsing it, which alters 8-bit attachments'),
 ('C25','e80eec8','wrapped forwarding attached the raw message after a lossy UTF-8 decoding instead of its bytes'),
 ('C01','933e7bb','forwarding rejected when the download or the parsing of the raw message failed instead of resolving to an error'),
 ('C22','c47ee0b','contacts.create with audienceId, segments or topics explicitly undefined behaved as if they were given'),
 ('C01','53acfc9','contactProperties.list rejected on a success body that is not a list object (e.g. {}, a string, or a null list element)'),
 ('C01','6d5e30f','templates.create/duplicate(...).publish() rejected, or asked to publish "undefined", when the first response was a success without a template id'),
]
cases=[l.strip() for l in open(sys.argv[1])] if len(sys.argv)>1 else []
out=[{'status':'fixed','property':p,'commit':c,'what':w,'text':f'fixed: property={p} {c} {w}'} for p,c,w in fixed]
out+=[{'status':'known','property':'C12','case':c,'label':L,'what':f'an identifier containing /, ?, #, \\, % or .. segments is put into the URL of {c.split(":")[0]} without percent-encoding and changes the path, query or fragment'} for c in sorted(cases)]
json.dump({'findings':out},open('/verif/known-findings.json','w'),indent=1,ensure_ascii=False)
print(len(out))
