import json
base=" Sampled, not exhaustive: it holds on the runs explored. Trusts the reference model in sim/zzverif (written from the protocol rules, independent of the code under test for encoding, hashing input, rewards, difficulty and limits; cn_fast_hash and curve arithmetic are shared with the code) and the simulator."
L={
"C01":("seeded block histories with crashes, storage faults and concurrent submitters against a reference chain","Every run compares the stored line, top and height with a reference chain after each step and, for concurrent callers, with a linearised log."),
"C02":("failing and aborted submissions mirrored on a reference chain that never saw them","A refused submission (rule, storage error before or after the write, crash inside) must leave every later observation as the reference says."),
"C03":("two simulated nodes fed the same blocks, one amid repeats, junk, restarts and preempted readers","Verdict by verdict and record by record comparison of the two real nodes."),
"C04":("forged blocks around reward, penalty and fee limits judged by a reference emission model","Rewards, penalties, fees and totals recomputed by the reference model for each accepted and refused block."),
"C05":("forged ill-formed blocks over every rule, judged by a reference rule set","About 70 kinds of rule-breaking block at every era; acceptance of any block the reference refuses is a violation."),
"C06":("clock skew and jumps with blocks at both timestamp limits","Both bounds are met exactly, one second inside and outside, while the simulated clock jumps."),
"C07":("valid blocks at every window length and upgrade boundary after faults and refusals","Refusal of a block that obeys every reference rule is a violation."),
"C08":("concurrent checkpoint queries under a preempting scheduler with a linearizability check; forged blocks at checkpoints","Hang, wrong answer or override of a checkpoint is a violation."),
"C09":("concurrent submitters and readers under a preempting scheduler with real-time linearizability check","Interval check of the recorded history against an append-only log, deadlock and data-race (map window) detection."),
"C19":("restart, crash-restart and foreign-store opening at arbitrary points of a history","Reopening is compared with the reference chain; foreign stores must be refused unchanged."),
"C20":("chain requests at every height and during concurrent additions","Each returned list is compared with the definition for one and the same top."),
"C21":("faulty random source: short, split, failing reads and adversarial bytes","Keys and signatures as functions of the delivered bytes, and verification against altered messages and keys."),
"C22":("histories of odd block times in every era, judged by a reference difficulty","Cumulative difficulty recorded for each block compared with a big-integer reference of each era's rule."),
"C10":("real node and simulated peers over a network of random fragmentation, small windows, delays and cut connections; tap on every byte the node writes","Every frame the node writes is cut and parsed by an independent codec; answers are counted and ordered against the requests sent; bursts chopped at random must be answered exactly once and in order, cut messages never."),
"C11":("garbled, truncated, mutated and absurd messages, blocks and transactions from simulated peers, with a memory and progress watch","Crash, hang, allocation far above the bytes received, file access, foreign block stored or honest peer no longer served is a violation."),
"C12":("strangers of other networks, versions and handshake orders among honest simulated peers","Requests, listed addresses and stored blocks are traced to the connection they come from; connections that must end are watched for their closing."),
"C13":("cheating simulated peers over about twenty kinds of wrong answers, during real synchronisation","Every request is compared with what that peer announced and every stored block with what was asked from a peer that gave it; offenders must be dropped and nothing after the offence stored."),
"C14":("partitions, resets, crashes of node and peers and cheats, then calm, with a bound on the time to catch up","Liveness as progress: the node must reach the top of a connected honest peer within a bound that grows with the gap, in simulated time, once faults stop."),
"C15":("shutdown at a random point with idle, half-open, stalled, mid-message and not reading peers; closed connections watched during the run","Return within 30 simulated seconds, port free, all connections closed; descriptors and tasks compared with the open connections."),
"C16":("accept failures, descriptor exhaustion, resets and peer crashes around honest newcomers","A newcomer's handshake must be answered within a bound while the node runs."),
"C17":("churn of incoming and outgoing peers under a preempting scheduler with map-race detection","Every list sent is parsed and each entry traced to a handshake; outgoing peers must stay listed."),
"C18":("clock jumps, configured and random identities, blocks being added during handshakes under a preempting scheduler","Height, top, identity, version, network and time of each message compared with what was true between the request and the message."),
}
json.dump({k:[a,b+base] for k,(a,b) in L.items()}, open('/verif/tools/levels.json','w'),indent=1)
