import sys; sys.path.insert(0,'/verif/tools')
import meta
D=dict(
C01="Enumerates getter/setter/constructor families from the public headers (`vl_X_set_Y`/`vl_X_get_Y`, constructor parameters by name). For every pair the value stored by the setter is traced to the member and from the member to the getter's return value. Oracle: identity, or the frozen list of documented clamps/derived values. Population: all pairs of the API (66 pairs, 46 constructor parameters). Tests set a handful of values; narrowing, swapped members and clamps only show for particular values. ~8 s.",
C02="A table (frozen by public API name) lists every option with its member; interprocedural write sets of all 557 public functions show who may write it, read sets of the algorithm's entry points show that it is consulted. ~8 s.",
C03="Owned members are discovered from allocation flow (a member that receives a fresh block). Must-release dataflow on the delete function on every path, typestate over members for double release/use after release, release-before-replace at every overwriting store. ~10 s.",
C04="Every acquire (vl_malloc family, malloc, fopen, constructors) in library and drivers; a path-sensitive-by-dominance typestate analysis with escape summaries asks that it is released or handed over on each way out. ~10 s.",
C06="Each member of the source object must flow to the same member of the copy (scalar: same value; buffer: fresh allocation plus copy whose extent, a polynomial over the members, equals the allocation). ~5 s.",
C07="Bottom-up summaries of stores, frees and retained pointers are compared with const-qualified parameters and with a frozen table of documented borrowers/queries. ~8 s.",
C10="Query over all call sites of allocators; allocation-origin value flow of every vl_free/free operand; the four wrappers are checked to forward their operands to the registered function. ~6 s.",
C11="Guard analysis: each call of the print wrapper must be control dependent on a positive verbosity; regions that run only under verbosity may not write anything that outlives them. ~8 s.",
C13="Sources of nondeterminism (clock, env, addresses as values, C rand, mutable statics) against sinks (stores to results/objects), generator advances only in documented functions. ~8 s.",
C14="Each use of a function ending in _sse2/_avx is control dependent on the switch and on the right CPUID bit; value-graph identity of its operands with those of the portable branch; the portable code is excluded on that path. ~6 s.",
C15="For each of the 40 dispatched functions every loop is shown to consume each stream in lockstep (affine recurrences of the pointers against the bound) and the accumulated term is put into normal form and compared with the documented term; horizontal reductions and tails included. ~20 s.",
C16="Value graphs of loop-free helpers compared with the definition piecewise; the digit-by-digit square root by its recurrence invariant; tables enumerated by enumerator. ~6 s.",
C21="A finite abstract domain of lock states (owner, count, waiting) run to a fixpoint over lock/unlock; path coverage of lock/unlock pairs; dominance queries for the creation of the thread state. ~6 s.",
C22="The OpenMP configuration is compiled; for each outlined region all memory writes are classified (private, critical, reduction, affine in the loop counter). ~15 s.",
C28="All variadic formatting calls of the typed IR; format literal parsed, conversions against argument types. ~10 s.",
C40="One step of every recursion and loop of vl/kdtree.c (helpers inlined) is evaluated by conditional constant propagation (lib/nat.py Case) over the scev closed forms, in every case of a finite partition: data type x distance x position of the query coordinate relative to the cell and threshold (7 regions) x room in the result list x bound nearer/farther for the descent; seen/new x limit x room for a leaf point; N = 0, 1, many, coinciding points and the split dimension heap (room, more/less varying, constant) for construction; median/mean x parity x position of the mean for the threshold (unsigned wrap-around of the split index is modelled). Each store and call that must or may run is compared with the invariant: child taken, node kept, its bound, neighbor replaced, heap order calls, ranges of the children. Tests query one random l2 data set. About 1600 obligations, 15 s.",
C31="The two header templates are instantiated with opaque comparison/exchange functions (stubs/containers.c). For every operation the calls it makes, their arguments and conditions are put in closed form and compared with the specified step in each case of a finite partition (children present or not, parity, weak orders of the elements; sides of 0..16 and more elements). Instances: comparison = key(a) - key(b), exchange = permutation of two cells. ~5 s.",
C32="Losses, conjugates and updates as piecewise polynomials with exp/log atoms; solver steps as stored values and callback arguments with their path conditions; statistics as sums. ~25 s.",
C33="Tempering/regeneration as GF(2) matrices; seeding recurrences as polynomials mod 2^32; derived numbers as value graphs. ~8 s.",
C34="Closed forms of every store of the elimination/back-substitution, recurrence of the pivot search, case tree of dlasv2 compared with LAPACK's published formulas. ~20 s.",
C35="Closed forms (address, value, trip count, condition) of every store of the image kernels, inductive invariants for the running filter, integral and distance-transform envelopes. ~40 s.",
C36="As C35, for the encoders and the kernel map, plus pass order (normalisations) under each flag. ~20 s.",
C37="As C36, per algorithm x element type: the facts (algorithm, type, distance) prune the inlined function, each buffer is identified by what is first stored into it, bounds by their update rule. Convergence flag followed through its phi web. ~45 s.",
C38="As C37: expectation, maximization (initial, restart and loop instances), termination as a condition identity, restart search loops, initialisations, repetitions as header-phi webs. ~6 s.",
C42="Closed forms of all stores and convolution arguments of vl_dsift_process (mathop helpers kept as functions), each pixel regime (first/inner/last row x column) separately by substituting the index; kernel and clamp by sign cases; order of the phases by CFG. ~5 s.",
C43="Closed form of the table stores evaluated for both storage orders against the definition of the 58 codes; closed form of the pattern index evaluated for 2^8 comparison outcomes and ties; contributions by grid position (36 positions x 4 cells) with symbolic grid size. ~1 s.",
C44="Closed form of every store of the constructor, put, extract and render functions; facts (variant, layout, bilinear) prune the inlined function; contributions by grid position with symbolic sizes; the permutation for 4..12 orientations and the bins of angles in [-2n, 5n) positions by complete enumeration on the closed form. ~50 s.",
C41="Closed forms of all stores of the constructor, octave, detection, orientation and descriptor functions. Small ones are compared as expressions (polynomials over loads and iterations); large ones keep a name for merged values and quotients (lib/let.py) and are evaluated, like the definition, at sample assignments of image, sizes and keypoint. Candidate, acceptance, peak and range tests are read off the branch conditions of the block graph under chosen values, one neighbor or test at a time; where a value is used after a phase (gradients before votes, clamping between normalisations) dominance decides. ~25 s.",
C39="Closed forms of the stores to densities, moments, parents and distances. The density and the moments are summed over the closed iteration space (with its guards) and compared with the Parzen sum over the clipped window for sample images of several shapes. The search for the parent is decided as a transition: from the initial state and from states just above and below the candidate, one step must link exactly when the candidate has greater density, is within the maximum distance and is nearer; all pixels of the window must occur as candidates, equal densities never link. Medoid scores likewise.",
C45="Closed forms of the stores of push, init and both training functions. Nearest-center searches are transitions: from each state that one step reaches, each later candidate must win exactly when strictly nearer. The pruned rounds are walked for data, bounds (exact, loose, stale) and candidates: the reassignment must be reached exactly when the candidate is nearer, also from the state after a reassignment. Bound updates are compared with the triangle inequality; buffer sizes with the largest offset stored for more and fewer centers than data; the exits with flag and iteration count.",
C46="Closed forms of the stores, of every call argument and of the descending node pointer of the hierarchical quantiser, evaluated at sample sizes: arguments of initialisation, training, assignment, subset copy and recursion; the path entry, the datum and the child followed; the counters of the subset copy as transitions decided per datum; the condition under which a node has children for sizes with more, as many and fewer data than centers; order of the phases by dominance.",
C47="Closed forms of the stores of the information bottleneck, evaluated at sample tables: marginals, information and entropy, the sums of each entry and the cost of each pair (label by label, following the branches that leave out zeros), the updates of both entries from every order of costs; all stores of a merge for pairs in both orders and with the last entry, with the order of adding and moving; the search for the least cost as transitions; parents, costs, the end of merging and the arguments of each call in vl_aib_process; sizes of all tables.",
)
import os
extra='/verif/tools/design_extra.py'
if os.path.exists(extra): exec(open(extra).read())
out=[]
for p in meta.PROPS:
    if p.get('na'): continue
    out.append('### %s %s\n'%(p['id'],p['title']))
    out.append('*Decided by* %s.\n'%p['technique'])
    out.append(D[p['id']]+'\n')
    out.append('*Quantifies over* %s. *Beyond the tests:* %s.\n'%(p['quant'],p['why'].rstrip('.')))
    n=p.get('note','').replace(meta.NOTE,'').strip()
    if n: out.append('*Limits:* %s\n'%n)
import re
s=open('/verif/DESIGN.md').read()
a='## 2. What each check decides'; 
i=s.index(a); j=s.find('\n## 3. ',i)
s=s[:i]+a+'\n\n'+'\n'.join(out)+(s[j:] if j>0 else '')
# seeds
import glob,json
rows=['| change | property | needs | breaks | caught by |','| --- | --- | --- | --- | --- |']
for d in sorted(glob.glob('/verif/seeded/*'),key=lambda d:(int(re.search(r's(\d+)',d).group(1)),d)):
    m=json.load(open(d+'/meta.json'))
    rows.append('| %s | %s | %s | %s | %s |'%(os.path.basename(d),m['property'],m['needs'],m['what_it_breaks'],m.get('caught',m['property'])))
i=s.find('<!-- seeds -->'); j=s.find('<!-- /seeds -->')
if i>0: s=s[:i]+'<!-- seeds -->\n'+'\n'.join(rows)+'\n'+s[j:]
# not applicable
na=['* **%s %s** - %s'%(p['id'],p['title'],p['na']) for p in meta.PROPS if p.get('na')]
i=s.find('<!-- na -->'); j=s.find('<!-- /na -->')
if i>0: s=s[:i]+'<!-- na -->\n'+'\n'.join(na)+'\n'+s[j:]
open('/verif/DESIGN.md','w').write(s)
