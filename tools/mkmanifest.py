import json,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
claimed=sys.argv[1:] or [p['id'] for p in props if p['id'].startswith('C')]
trust=('Sampled, not exhaustive: a clean batch of seeded simulated runs is evidence, not proof. Real code: rtspclient, tcpnetwork, sdp and '
 'gorilla/websocket, translated by simgen so that goroutines, channels, locks, timers, memory accesses and dialling are the simulator\'s; '
 'stubs: scheduler, clock, TCP network, servers, application. Trusted: simgen/simrt/simnet and the oracles in worker/.')
notes=json.load(open(V+'/tools/levelnotes.json'))
m={'version':1,'setup_cmd':'./check.sh build',
 'checks':[{'property':p['id'],'quick_cmd':'./check.sh %s quick'%p['id'],'thorough_cmd':'./check.sh %s thorough'%p['id'],
   'technique':'deterministic simulation with fault injection: seeded search over schedules, timing, segmentation and faults, '+notes.get(p['id'],['checked against a reference model',''])[0],
   'level':'exploration','level_note':(notes.get(p['id'],['',''])[1]+' '+trust).strip()} for p in props if p['id'] in claimed],
 'not_applicable':[{'property':p['id'],'reason':notes.get(p['id'],['','not built yet'])[1]} for p in props if p['id'] not in claimed],
 'notes':'No hooks in /repo: every check translates the current tree into a scratch directory (.build) and runs that under the simulator. ./check.sh replay FILE repeats a recorded violation.'}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
open(V+'/MANIFEST.json','a').write('\n')
