import json,os
import props
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[json.loads(l) for l in open(H+'/properties.jsonl')]
checks=[]
for p in P:
    i=p['id']
    checks.append({'property':i,'quick_cmd':'python3 check.py %s quick'%i,'thorough_cmd':'python3 check.py %s thorough'%i,
      'technique':'contracts on the real functions (MIR extracted and inlined each run), every obligation discharged by Verus/Z3',
      'level':'proof',
      'level_note':'Proof for all inputs, no bound, of %d own functions and their call closure against a reference grammar. Trusts the MIR extractor, the symbolic evaluator, the meanings of the listed std/nom leaves, Verus and Z3; assumes text lengths do not overflow and stack/memory suffice. A function the tools cannot take falls back to a bounded differential search, labelled so in the evidence (none on this tree).'%len(props.PROPS[i]['own'])})
json.dump({'version':1,'setup_cmd':'python3 check.py --setup','checks':checks,'not_applicable':[],
 'notes':'No hooks in /repo: MIR is read from an ordinary build. Repairs made in /repo are listed in known-findings.txt.'},open(H+'/MANIFEST.json','w'),indent=1)
