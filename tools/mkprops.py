#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so that the long texts stay readable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
CM='pkg/kmeans/centroidmanager/cmanager.go'; C='pkg/kmeans/centroid/centroid.go'
S='pkg/kmeans/rpc/server.go'; CL='pkg/kmeans/rpc/client.go'; R='pkg/kmeans/rpc/rpc.go'
KNN='pkg/searchutils/knn.go'; D='pkg/mathutils/distance.go'; V='pkg/mathutils/vectools.go'
EL='core/eventloop/el.go'; ELT='core/eventloop/eltask.go'; ELU='core/eventloop/eltaskutils.go'; ELC='core/eventloop/cfg.go'; LOG='core/eventloop/log.go'
API='core/api/api.go'; H='core/api/handler.go'; CONV='core/api/conv.go'
N='core/nodes/nodes.go'; NV='core/nodes/vecs.go'; PUT='core/dps/putdps.go'; GET='core/dps/getdps.go'; DPS='core/dps/dps.go'; DP='pkg/kmeans/common/datapoint.go'
ARB='pkg/arbiter/arbiter.go'; SVC='cmd/service/service.go'; CFG='cfg/cfg.go'

p('C01','Reorganising a node never loses, duplicates or alters data points',
 'Any sequence of maintenance operations on the data of a namespace (splitting, merging, trimming, expiring, re-centring, redistributing among its own centroids or handing points to other receivers that may refuse them) leaves the multiset of unexpired data points - vector, payload and expiry bit for bit - exactly what it was, counting the source and all receivers together. Only points that have expired may disappear.',
 ['inputs','histories'],'every sequence of maintenance operations, on any population of centroids and points (sizes, ties, zero vectors, duplicates, expired points, refusing or dimension-mismatched receivers)',
 'The tests run each operation once on 2-4 hand-written points; losing a point needs particular sizes, ties, refusals or a sequence of operations.',
 [CM,C,S],[('SplitCentroids/MergeCentroids/MemTrim/Expire/DistributeDataPoints move points between slices',CM),('put-back of refused points',C)],
 [('DataPoints','points stored in a centroid',C),('Centroids','centroids of a namespace',CM)],['stored points before and after each operation'])
p('C02','An insert reports success if and only if the data point was stored, once',
 'When inserting a data point - into a centroid, a namespace manager, a node over RPC, or a cluster through the put functions - reports success, exactly that point (vector, payload, expiry unchanged) is stored exactly once and nothing else changed; when it reports failure (expired, wrong dimension, not finite, no node accepts), nothing was stored anywhere; a connection that breaks while an insert is under way may leave its outcome unknown to the caller, but never has one node store the point twice. An unexpired point with a finite vector of the dimension in use, or into an unused namespace of a reachable node, is always accepted.',
 ['inputs','histories'],'every data point and every prior state, including first insert in a namespace, emptied namespaces, expired points, mismatched dimensions and refusing or dead nodes',
 'The tests insert valid points only and never compare the returned flag with what was stored.',
 [CM,C,S,CL,PUT],[('AddDataPoint return values',CM),('resp flag of the RPC handler',S),('putDataPoint stops at first acceptance',PUT)],
 [('DataPoints','points stored in a centroid',C)],['return value of the insert against the stored points afterwards'])
p('C03','Expired points are never accepted, never served; unexpired ones never expire',
 'A point whose expiry is enabled and in the past is refused by every insert and is never among the points that a lookup or drain returns or that a redistribution hands to another node; an expiry pass or a trim removes every expired point of the namespace. A point that is not expired (expiry disabled, whatever its timestamp, or a timestamp in the future) is never removed on account of expiry by any operation.',
 ['inputs','histories'],'every population mixing expired, unexpired and expiry-disabled points in any position, and every operation that touches them',
 'Tests use at most three points with real sleeps; adjacent expired points, all-expired centroids, disabled expiry with old timestamps and most operations are never tried.',
 [DP,C,CM,S,GET],[('Expired()',DP),('skip/remove during generators and drains',C)],
 [('Expires/ExpireEnabled','expiry of a point',DP)],['results of lookups and drains, and stored points afterwards'])
p('C04','A k-nearest query returns exactly min(k, available) distinct stored points',
 'A query for k points on a namespace returns exactly the smaller of k and the number of stored, unexpired points with the query\'s dimension, all distinct and each identical to a stored point, however the points are spread over centroids and whichever centroids are empty or hold only expired points.',
 ['inputs','histories'],'every population of centroids and points (including empty, all-expired, zero-vector and very uneven centroids), every query vector and every k including 0 and more than is stored',
 'Tests query populations of 2-4 points with k=1..3 and no empty or expired centroids.',
 [CM,C,KNN],[('centroid by centroid search until k is reached',CM)],[],['returned points against stored points before the query'])
p('C05','Query results come from the nearest centroids first, best points first',
 'A query visits centroids in order of the similarity of their vector to the query: all available points of a nearer centroid are returned before any of a farther one, and within each centroid the returned points are its most similar ones, in order from most to least similar. A query for whole centroids gives the most similar ones that match, most similar first, as many as asked for if there are as many, and the nearest centroid\'s vector is the most similar one. This holds for cosine similarity and for Euclidean distance, with or without removal.',
 ['inputs','histories'],'every population, query vector and k, under both search metrics, up to ties',
 'Tests check the single best of 2-4 points; order across and within centroids is never compared with an independent ranking.',
 [CM,C,KNN,D],[('KNNLookup over ranked centroids',CM),('KNNLookup within a centroid',C)],[],['sequence of returned points and the centroids they were stored in'])
p('C06','Draining removes exactly what it returns; reading removes nothing',
 'A draining lookup, a drain of n points or a drain of whole centroids removes from the store exactly the points it returns (plus possibly expired ones), so every point is returned by at most one drain, and what it returned stays as it was whatever happens to the store afterwards. A non-draining lookup, nearest-centroid query, length, vector, namespace or metadata read changes nothing that is stored, apart from possibly discarding expired points.',
 ['inputs','histories'],'every operation sequence over every population, locally, on a node, over RPC, through the cluster functions and the HTTP query',
 'Tests check the remaining count after one drain of a few points.',
 [CM,C,S,CL,GET,H],[('rmDataPoint on drained indexes',C),('centroid removal in NearestCentroids',CM)],[],['returned points plus stored points against stored points before'])
p('C07','Bulk drains take min(n, stored) points, evenly, worst fits first if ordered',
 'Draining n points from a namespace without expired points returns exactly min(n, stored) points, spread over centroids as evenly as their sizes allow (no centroid gives two more than another that still has points left; n of zero or less gives nothing). In the ordered variant the points taken from a centroid are the ones least similar to that centroid\'s vector.',
 ['inputs','histories'],'every population of centroids, every n (negative, zero, larger than stored), both metrics, up to ties',
 'Tests drain 1-2 points from two hand-made centroids.',
 [CM,C,KNN],[('centroidDataPointPortions',CM),('DrainOrdered',C)],[],['points removed per centroid'])
p('C08','A centroid\'s vector is the mean of the points it holds',
 'After any sequence of inserts, drains, lookups, expiry passes, trims, splits, merges and redistributions, the vector of every non-empty centroid equals the arithmetic mean of the vectors of the points stored in it, up to floating-point rounding.',
 ['histories','inputs'],'every operation sequence over every population',
 'Tests check the mean after single add/remove steps; drift comes from particular operations in sequence (trimming, draining to empty and refilling, expiry during a scan).',
 [C,CM,V],[('incremental mean in addDataPoint/rmDataPoint',C),('MoveVector',C)],[('vec','mean of the points',C)],['centroid vector against recomputed mean after every operation'])
p('C09','A namespace\'s vector is the mean of its centroids\' vectors',
 'After any sequence of operations on a namespace of a node (inserts with automatic splits, drains, lookups, expiry, trims, splits, merges, centroid removal, stealing, redistribution), the vector the node reports for it equals the mean of its centroids\' vectors up to rounding whenever it has centroids, and is always finite.',
 ['histories','inputs'],'every operation sequence over every population, on managers and on nodes including stealing between nodes',
 'Tests check the vector after one operation with symmetric data where several wrong update rules give the right answer.',
 [CM,S],[('prepVecUpdate and the per-operation vector updates',CM)],[('vec','mean of centroid vectors',CM)],['reported vector against recomputed mean after every operation'])
p('C10','Splits halve and merges combine exactly the centroids they should',
 'Splitting divides exactly the centroids that satisfy the condition and hold at least two points into two whose sizes differ by at most one, and leaves the others untouched; an insert that makes a centroid reach the configured threshold (of two or more) splits it, so no centroid grown by inserts stays at or above it. Merging never takes a centroid apart, absorbs nearest centroids first and only until the merged one stops satisfying the condition, and afterwards no centroid satisfies it unless only one centroid is left.',
 ['inputs','histories'],'every population of unexpired points, every threshold and size range, over managers and RPC range forms',
 'Tests split or merge two or three tiny centroids with one predicate.',
 [CM,S],[('SplitCentroids, splitCentroid',CM),('MergeCentroids',CM),('auto-split in AddDataPoint',CM)],[],['partition of points into centroids before and after'])
p('C11','Nearest/furthest search returns the true top k in order',
 'The four search functions (k nearest/furthest by cosine similarity / Euclidean distance) return the positions of the min(k, comparable) best vectors of the sequence, without repeats, ordered from best to worst by the named metric; vectors of another dimension are skipped but still counted in positions, and k of zero or less yields nothing.',
 ['inputs'],'every target, every sequence (ties, zero vectors, opposite vectors, mixed dimensions, any length) and every k',
 'Tests check three fixed vectors per function.',
 [KNN,D],[('KNNBrute + bubble insertion',KNN)],[],['returned positions against an independent exhaustive ranking'])
p('C12','Distances, similarities and vector arithmetic are mathematically right',
 'Cosine similarity is the cosine of the angle (0 if either vector is zero) and Euclidean distance the straight-line distance, both up to rounding, symmetric, and an error exactly when the lengths differ. Vector mean, sum, difference, scaling, equality and membership give the component-wise results, report failure exactly on mismatched lengths or empty input, and never modify their arguments.',
 ['inputs'],'all finite vectors of moderate magnitude and any dimension',
 'Tests exercise these only indirectly with a few small integer vectors.',
 [D,V],[('EuclideanDistance, CosineSimilarity',D),('VecMean, VecAdd, ...',V)],[],['function results against a high-precision reference'])
p('C13','No data races under any mix of concurrent use',
 'Concurrent clients, node-to-node redistribution and stealing, event loops being started and stopped, API requests and servers being started and stopped never access shared memory without synchronisation.',
 ['schedules'],'every interleaving of every combination of node operations, event-loop tasks, API requests and start/stop',
 'The tests are nearly sequential and are not run under a race detector; results of racy reads look right most of the time.',
 [R,S,CM,EL,'core/eventloop/eltask.go',H],[('table and slot locks',R)],[],['Go race detector reports'])
p('C14','Concurrent operations on a namespace are atomic (linearizable)',
 'For every concurrent history of operations on a namespace of a node - inserts (including the very first ones that create the namespace), lookups, drains, counts, maintenance - there is one sequential order consistent with real time that explains every result. In particular no acknowledged insert is lost, no point is returned by two drains, and operations on a namespace that does not exist yet fail as such only before its creation.',
 ['schedules','histories'],'every schedule of concurrent clients on one namespace, including concurrent creation and stealing into it',
 'Tests issue one request at a time.',
 [R,S],[('CManagerSlot lock around each operation',R),('namespace creation in AddDataPoint/StealCentroid',S)],[],['invocation/response histories at the client boundary'])
p('C15','Namespaces are isolated from each other',
 'An operation on one namespace never changes, returns or counts data of another namespace on any node, whatever the names (empty, very long, non-ASCII, prefixes of each other); moving data between nodes keeps it in its namespace. A namespace whose operation is slow or stuck does not prevent operations on other namespaces of the node from completing.',
 ['inputs','histories','schedules'],'every interleaving of operations over several namespaces and nodes, for all names',
 'Tests use one namespace per case.',
 [R,S,CL,ELU],[('slot per namespace',R),('two-level locking',R)],[],['stored points per namespace and results of each operation'])
p('C16','A cluster neither loses nor duplicates data under concurrent rebalancing',
 'With any number of nodes concurrently inserting, draining, redistributing (fast, accurate, internal), stealing and running event loops against each other, over address lists that may be empty, repeat nodes, include the node itself or unreachable nodes, then once activity stops every acknowledged unexpired point is stored on exactly one node exactly once, or was returned by exactly one drain.',
 ['schedules','histories','configurations','fault_sequences'],'every mix and interleaving of these operations over any number of nodes and any address lists; nodes unreachable from the start',
 'Tests move a few points between two idle nodes.',
 [S,CL,ELT],[('drain, send, put back on failure',S),('StealCentroid appends drained centroids',S)],[],['union of all stores at quiescence plus drained points'])
p('C17','Failures during redistribution never lose data',
 'If, while data is being redistributed or stolen between nodes, any remote call fails - connection refused, request never delivered, connection broken before the reply - or the remote refuses, no acknowledged unexpired point is lost: afterwards every one is stored on at least one node.',
 ['fault_sequences','crash_points'],'every placement of connection failures over the calls made by a redistribution or steal',
 'Tests never break a connection.',
 [S,CL],[('distributeDP tries the next address, then put back into self',S),('StealCentroid',S)],[],['union of all stores after each injected fault'])
p('C18','Redistributed points go to the best-fit receiver that accepts them',
 'Each point moved by a redistribution ends up at the receiver whose vector (the node\'s mean for the fast variant, its nearest centroid for the accurate one, the receiver\'s own for local ones) is most similar to the point; if a remote node refuses, the next most similar is used; a point that nobody takes is back at its origin. The points chosen to move are, per centroid, those that fit it worst, and at most the requested number moves.',
 ['inputs','histories','fault_sequences'],'every population, every set of receivers (dead, refusing, of other dimension, without the namespace), up to ties',
 'Tests use two receivers with one perfect match each.',
 [S,'pkg/kmeans/rpc/serverutils.go',C,CM],[('distributeDP over KNN-ranked vectors',S),('Centroid.DistributeDataPoints',C)],[],['destination of each point against receivers\' vectors'])
p('C19','Put stores a point on the best-fit node, once',
 'A fast (accurate) put stores the point on exactly one node: the reachable node having the namespace whose mean (nearest centroid) is most similar to it, or the next best that accepts; it fails without storing anything if there is none. A random put stores it on exactly one reachable accepting node if any exists, and over repeated puts every node gets chosen.',
 ['inputs','configurations','fault_sequences'],'every cluster state, address list (repeats, dead nodes, nodes without the namespace or with other dimensions or refusing) and point',
 'Tests use three live nodes with one clear winner.',
 [PUT,N,NV,DPS],[('BestFitNodes*',N),('putDataPoint',PUT)],[],['where the point is stored'])
p('C20','Cluster queries collect exactly min(n, available), best nodes first',
 'A fast (accurate) cluster query visits the reachable nodes having the namespace in order of the similarity of their mean (nearest centroid) to the query vector, takes from each what a query there would return, and stops at n: it returns exactly the smaller of n and what those nodes hold, never more, no point twice, and with draining on removes exactly these. A random query returns as many, in any node order; unreachable nodes are skipped.',
 ['inputs','configurations','fault_sequences'],'every cluster state, address list, n and query vector, up to ties',
 'Tests use three nodes with one point each.',
 [GET,N,NV],[('getDataPoints loop',GET),('BestFitNodes*',N)],[],['returned points and per-node stores'])
p('C21','The HTTP API stores and returns data faithfully and reports outcomes',
 'A put request answered 200 has stored exactly the given point (vector, payload, expiry, flag exactly preserved) in the given namespace of exactly one node of the network - even if no node had the namespace - and one answered with an error status has stored nothing. A query request is answered 200 with a JSON list of exactly what the corresponding cluster query returns, honouring namespace, accuracy, n and drain; malformed JSON gets 400 and changes nothing. Without node addresses the API refuses to start and reports an error.',
 ['inputs','configurations','histories'],'every request body and cluster state, with some or all nodes down; also the shipped service binary',
 'The API test performs one put and one query.',
 [H,CONV,API,'cmd/service/service.go','cfg/cfg.go'],[('putDataPoint, queryDataPoint handlers',H),('DP <-> DataPoint conversion',CONV)],[],['HTTP status and body against the nodes\' stores'])
p('C22','No request can take a node or the API down',
 'Whatever arguments a client sends - negative, zero or huge counts and limits, vectors of any dimension including empty, non-finite components, unknown namespaces, unreachable or repeated addresses, malformed HTTP bodies - the node and API process keeps running, keeps its memory bounded by its data (however many requests were made or event loop passes ran), and answers ordinary requests correctly afterwards; existing data is unaffected unless the request asked to remove or move it.',
 ['inputs','fault_sequences'],'all argument values of all remotely callable operations',
 'Tests pass small sensible arguments only.',
 [S,CM,C,KNN,CL,GET,H],[('argument handling in handlers',S)],[],['process liveness, memory, replies to probe requests'])
p('C23','The event loop runs each task exactly on its configured schedule',
 'With interval s for a task, the event loop runs it in its first iteration and every s-th iteration after that for as long as it runs (intervals below one count as one, above 1000 means never), for every namespace of the local node, with the configured arguments, against the local node only except where it pulls metadata or moves data, and no configuration makes it crash. Each task it runs is reported to its logger in a text naming the namespace. After it is stopped no further task is started.',
 ['configurations','histories'],'every configuration of intervals, arguments, addresses (including none, or unreachable), namespaces and stop points, including runs longer than the loop counter\'s period',
 'Tests invoke single tasks by hand or let the loop run briefly.',
 [EL,ELT,ELC,LOG],[('withSkip',ELT),('clamp',ELC),('elStep',EL)],[('iter','iteration counter',EL)],['RPC calls arriving at nodes per iteration, logger calls'])
p('C24','Load balancing only moves data to an under-filled node, within bounds',
 'A load-balancing pass on a node takes data of a namespace only if the node holds clearly less than the average of the nodes having that namespace (by 40%), only from other nodes that would still hold clearly more than it (unless it is the only holder), and asks for at most its fair fraction of the deficit; when such a source exists and that fraction is at least one point, data does move towards it. It never moves data away from the local node and never balances a namespace against another.',
 ['configurations','histories'],'every distribution of sizes over nodes and namespaces, including nodes without the namespace and unreachable nodes',
 'Tests run one imbalanced two- or three-node case and look at the end result.',
 [ELT,ELU,S],[('eltLoadBalancing',ELT),('fetchRemoteLenDPs',ELU)],[],['steal requests (source, limit, namespace) against the sizes before'])
p('C25','Remote calls behave exactly like the same calls made locally',
 'Every operation issued through the RPC client on a node gives the same result and the same effect on the stored data as the corresponding operation on a local manager in the same state, for any data that can be stored (dimension, payload size, expiry); centroids fetched remotely are usable, carry exactly the stored points, and empty ones are left out.',
 ['inputs','histories'],'every operation sequence and data',
 'Tests call each remote method once and check one aspect of the result.',
 [S,CL],[('forwarding handlers',S),('client wrappers, centroid re-initialisation',CL)],[],['results and stores of twin executions'])
p('C26','Unknown namespaces and unreachable nodes are reported, not hidden',
 'A remote operation on a namespace the node does not have fails with an error naming the namespace, returns a zero value and does not create the namespace (except insert and steal, which create it); on an unreachable node it fails with an error and a zero value. An operation that was carried out reports no error, and a steal of at least one point reports success exactly if its source could be talked to and has the namespace, and the number of points it moved.',
 ['inputs','fault_sequences'],'every operation, namespace name and reachability',
 'Tests check the error for a couple of methods only.',
 [S,CL,R],[('handleNamespaceErr',S),('client error pointer',CL)],[],['error values and namespaces listed afterwards'])
p('C27','Reported metadata agrees with what is stored',
 'At any quiescent point the listed namespaces, the count of a namespace, and the metadata report (numbers of points and centroids per namespace) of a node agree with each other and with the points and centroids actually stored; the event loop\'s monitoring hands the logger the same numbers for exactly the configured nodes.',
 ['histories','configurations'],'every operation history and set of namespaces and nodes',
 'Tests compare one count in one namespace.',
 [S,CL,R,ELT],[('Meta, LenDP, Namespaces',S),('eltMeta',ELT)],[],['metadata against stored points'])
p('C28','Repeated redistribution brings misplaced data to where it fits',
 'When data forms well-separated groups and each centroid (node) predominantly holds one group, a bounded number of internal (between-node) redistribution rounds brings every misplaced point to the centroid (node) of its group and then leaves the placement unchanged.',
 ['inputs','histories','configurations'],'every such population, dimension and initial misplacement, for internal, fast and accurate redistribution',
 'Tests redistribute a handful of points once.',
 [CM,C,S],[('DistributeDataPointsInternal',CM),('DistributeDataPointsAccurate/Fast',S)],[],['group membership per centroid/node after each round'])
p('C29','Stopping a node really stops it, and calls leak nothing',
 'After a node is stopped it accepts no connection, no open connection is served any more and its address can be listened on again at once; a node started on an address in use reports an error. Every client call closes its connection and leaves no goroutine behind, whether it succeeds or fails, on the client and on the node.',
 ['schedules','histories'],'any number and timing of open connections, calls, starts and stops',
 'Tests stop servers only at process end and never count connections or goroutines.',
 [R,CL],[('StartListen stop function',R),('client() closes connection',CL)],[],['connection attempts after stop, open connections and goroutines after calls'])
p('C30','Trimming releases space and only space',
 'After trimming a namespace, no centroid without points remains, every point store has no spare capacity, expired points are gone, and all remaining centroids hold exactly the unexpired points they held before, in unchanged grouping. The memory of points that left the namespace before, in whatever way, can be reclaimed then.',
 ['inputs','histories'],'every population reached by any operation sequence',
 'Tests trim one centroid with one expired point.',
 [CM,C],[('MemTrim',CM),('MemTrim',C)],[],['capacity, length and content of each centroid after the trim'])
p('C31','Data that is placed well is found',
 'When data forms well-separated groups and each group is held by one node in centroids of its own, a cluster query (fast or accurate, with or without removal) near a group for up to its size of points returns points of that group only. If the group is in one centroid, they are exactly the k nearest points of the whole cluster, in order, as a search through all points would give.',
 ['inputs','histories','configurations'],'every such population, number of nodes and centroids, dimension, query near a group, k and metric, also after maintenance has run',
 'Tests never compare a query on several nodes with a search through all the data.',
 [GET,N,CM,C,NV],[('getDataPoints asks nodes in order of fit',GET),('BestFitNodes*',N),('KNNLookup over ranked centroids',CM)],[],['returned points against a brute-force ranking of the cluster'])
p('C32','Every operation ends, whatever it overlaps with',
 'Every operation on reachable or dead nodes ends, however many run at the same time: nodes redistributing to or stealing from each other, in circles or from themselves, through repeated or dead addresses, with broken connections or limits beyond any size. While an operation on a node waits for another node, the node goes on serving all others, also in the same namespace; event loops keep passing beside clients.',
 ['schedules','histories','fault_sequences'],'every set of overlapping operations among nodes, including those whose remote calls form a cycle, and every limit',
 'Tests run one operation at a time; deadlocks between nodes need two remote operations crossing each other.',
 [S,R,CM,ELT],[('no lock is held across a remote call',S),('StealCentroid loop',S),('table and slot locks',R)],[('Table','slots with locks',R)],['calls under way and their age, replies to requests on a node that waits'])
p('C33','Service processes form one cluster that keeps its data',
 'Processes of the service program, each with node, HTTP API and event loop, serve one data set: a point put through any API is found and kept while all of them redistribute, balance, split and merge, and is drained exactly once through whichever API. When one is killed, the others keep answering with all the points they hold, and a restarted one takes part again; a process whose addresses are taken ends with a failure, and the program as shipped performs its scheduled maintenance without losing data and logs the numbers actually stored.',
 ['histories','schedules','configurations','crash_points'],'every number of processes, configuration of their event loops, load, and moment at which one is killed',
 'No test starts the program; nothing runs more than one process.',
 [SVC,CFG,H,API,EL,PUT,GET],[('wiring of node, API and event loop',SVC),('addresses and schedule',CFG)],[],['HTTP replies of all processes, metadata, logs, exit codes'])
p('C34','Arbitration yields one arbiter, and reports tell what happened',
 'When an election among reachable, whitelisted members succeeds, every member names the same member as the arbiter for the configured duration and none afterwards; candidates outside the whitelist are refused, and an unreachable member makes the election fail and is named. The summaries of a report (errors, statuses, success) agree with the answers it contains.',
 ['histories','configurations'],'every number of members, durations, repeated elections and members that are down or not whitelisted',
 'The test runs one election of three members with fixed durations.',
 [ARB],[('ArbiterServer, client and report helpers',ARB)],[],['answers of all members and the report of the candidate'])
p('C35','The API keeps its times, and stalled clients hold up nobody',
 'A client of the HTTP API that sends nothing, or only part of a request, is disconnected once the configured read timeout has passed and not before (never, if none is configured), and such a request changes nothing. A request whose answer is not ready within the write timeout ends without an answer; one that is sent and answered in time gets its answer. However many clients stall, and whichever node an answer is waiting for, other requests are served.',
 ['schedules','configurations'],'every pair of read and write timeouts (including none), number and kind of stalled clients, and time a node takes',
 'The tests call the handlers without a server that has timeouts, one request at a time, with nodes that answer at once.',
 [API,H],[('http.Server configured by Start',API),('handlers',H)],[],['answers and ends of connections with their times, namespaces on the nodes'])
p('C36','A steal takes whole, best-fitting centroids, as much as asked for',
 'A steal of n points moves whole centroids, with their points and grouping as they were, from the source to the node, those most similar to the vector the node\'s namespace has first (the source\'s own vector if it has none). It stops as soon as at least n points were moved, not before, unless the source has no more points of that dimension; for n of zero or less it moves nothing. It reports the number moved, changes no other centroid of either node, and both namespaces have the right vectors afterwards.',
 ['inputs','histories','configurations'],'every population of source and node, every n, both metrics, up to ties',
 'Tests steal from one node with a handful of points and count them.',
 [S,CL,CM],[('StealCentroid loop',S),('NearestCentroids with removal',CM)],[],['points and grouping on both nodes before and after, reply'])
p('C37','A slow node changes nothing but the time',
 'However long a node takes over a call, before or after carrying it out, or is busy with the namespace concerned, an operation that involves it waits and then has the result and effect it has when all nodes are prompt: puts, queries, rankings of nodes, redistributions, steals and all client calls.',
 ['schedules','inputs'],'every operation, call of it that is late, and delay',
 'In the tests all nodes answer at once.',
 [CL,R,S,PUT,GET,N,NV],[('client call and connection',CL),('collecting answers of nodes',NV)],[],['results and stored points, compared with a twin cluster that is prompt'])
p('C38','Nodes are ranked by how well their data fits',
 'Ranking addresses for a vector gives exactly those (as often as they were given) whose node answers and has data of the vector\'s dimension in the namespace, ordered by similarity: of the namespace\'s mean in the fast ranking, of its nearest centroid in the accurate one. It changes nothing that is stored, and not the list it was given.',
 ['inputs','configurations'],'every set of nodes and addresses (dead, refusing, repeated), vector and metric, up to ties',
 'Tests rank three prepared nodes once.',
 [N,NV],[('BestFitNodes*',N),('fetched vectors and their addresses',NV)],[],['ranking against one computed from what the nodes hold'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
for x in P:
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],'sentences',n)
print(len(P))
