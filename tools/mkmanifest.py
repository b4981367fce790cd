import json
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
ora={
'C01':'truth-table model','C02':'function equality of explicit tables, structural audit','C03':'explicit tables before and after collection',
'C04':'independent reachability walk','C05':'explicit tables of held handles','C06':'last-value map; recomputation with cleared caches',
'C07':'sets of sets','C08':'sets of sets','C09':'sum over all states (exact arithmetic too)','C10':'difference of conditional sums',
'C11':'brute-force minimal sets','C12':'pointwise gate definition','C13':'explicit counting and coverage','C14':'reference RPN evaluator',
'C15':'pointwise model','C16':'pointwise integer arithmetic','C17':'pointwise model','C18':'reference RPN evaluator',
'C19':'sum over all states (exact and interval arithmetic too)','C20':'difference of conditional sums, interval enclosure','C21':'brute-force extremal vectors',
'C22':'explicit vector sets','C23':'explicit counting and coverage','C24':'graph parsed back and compared with the diagram','C25':'declared sequence, tables and independent walk'}
m={'version':1,'setup_cmd':'bash check.sh --build',
'checks':[{'property':i,'quick_cmd':f'bash check.sh {i}','thorough_cmd':f'VERIF_TIER=thorough bash check.sh {i}',
 'technique':'property-based testing (proptest, stateful generation with shrinking) against '+ora[i],
 'level':'exploration',
 'level_note':'Held on every generated case (counts, classes and samples in the evidence file); small spaces are compared at every assignment, large ones at sampled or closed-form points. Trusts the reference model in harness/src; assumes the input domain stated in DESIGN.md.'} for i in ids],
'not_applicable':[],
'notes':'No hooks in /repo: the checks use only the public interfaces. fix: commits are listed in known-findings.txt.'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
