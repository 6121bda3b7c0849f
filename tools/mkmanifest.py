import json
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
T='deterministic simulation with fault injection: '
tech={
'C01':(T+'seeded scheduler interleaving threads at every memory access of the real library','exploration','Seeded search over schedules (random, targeted at shared locations, single preemption) of 2-4 threads; oracle: the same query alone. Sequentially consistent interleavings only; libm calls are atomic steps.'),
'C02':(T+'seeded histories over several state spaces with failing allocations and dirty memory, compared with a pristine process','exploration','Seeded search over histories; bit-exact oracle. Holds for the histories run.'),
'C03':(T+'allocation failures at every index of sampled calls, followed by further queries','fault_enumeration','For each sampled call every allocation index is made to fail (sweep) or a seeded one within a history; bit-exact oracle from a pristine process.'),
'C04':(T+'allocator-level accounting over seeded histories with failing allocations','fault_enumeration','Counts live blocks around every call, lifetime and aborted call; red zones and double-free detection. Leaks of aborted HC/CC planning queries are listed as known findings by type.'),
'C05':(T+'seeded missions of an independent simulated vehicle with interruptions, slip, restarts and failing allocations','exploration','Executes the controls with independent kinematics; tolerance 1e-3 m scale (see DESIGN.md).'),
'C06':(T+'seeded missions, limits checked on every segment and splice','exploration','Limits are checked exactly on the closed-form segments of the executed controls.'),
'C07':(T+'seeded missions, distances compared between queries and with reference types','exploration','Relational oracle: announced distance, driven distance, Dubins/Reeds-Shepp bounds, replanning triangle.'),
'C08':(T+'seeded tick sequences with clock jitter, jumps, repetition and resumption','exploration','Samples are compared with the curve of the controls computed by independent kinematics.'),
'C09':(T+'fleet of simulated noisy vehicles with own sensors, estimators and controllers','exploration','Each vehicle meets one disturbance; sums of outer products are the exact small-noise statistics; 0.5 % tolerance.'),
'C10':(T+'seeded belief propagation with handovers, restarts and failing allocations','exploration','Validity of every covariance and equality of handed-over and uninterrupted propagation.'),
'C11':(T+'real node against a simulated ROS with seeded subscribers, clock, parameters and stalls','exploration','Every published message is compared with what the library returns for that display; the ROS client library is a stand-in.'),
'C14':(T+'simulated drivers perform seeded manoeuvres with independent kinematics, then the planner is asked for the same trip','exploration','Upper-bound oracle: the driven length. Two kinds of manoeuvre the planners miss are listed as known findings by type and family; at discontinuities of the distance neighbouring values are accepted.'),
'C16':(T+'seeded missions run twice in equivalent descriptions (way back, other frame, other units, mirrored)','exploration','Relational oracle between the two simulations of a mission; at discontinuities of the distance the neighbouring values are accepted.'),
'C17':(T+'seeded missions planned in parallel by planners with less freedom','exploration','Relational oracle between planners on every leg; at discontinuities of the distance the neighbouring values are accepted.'),
'C12':(T+'real node against a simulated ROS; bounded progress and exit in simulated time','exploration','Progress within 10 s, exit within 30 s of simulated time in every run; the ROS client library is a stand-in.'),
}
na={
'C13':'A pure function of its argument: no schedule, clock, fault, history or second party is involved, so a simulation could only be input sampling in disguise. (Errors large enough to move a vehicle are seen by C05 and C08.)',
'C15':'Real computation time on real hardware; simulated time says nothing about it.',
}
m={'version':1,'setup_cmd':'python3 check.py --build','checks':[],'not_applicable':[]}
for p in P:
    i=p['id']
    if i in tech:
        t,l,n=tech[i]
        m['checks'].append(dict(property=i,quick_cmd='python3 check.py '+i,thorough_cmd='python3 check.py '+i,evidence_file='evidence/%s.json'%i,technique=t,level=l,level_note=n))
    else: m['not_applicable'].append(dict(property=i,reason=na[i]))
m['notes']='No hooks are needed in /repo: the seams are operator new/delete, the memory accesses (compiler instrumentation), the public API and the ROS client library. /repo has eight fix: commits, listed in known_findings.json.'
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
