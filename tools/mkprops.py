import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(obs),hook_needed=hook)))
CH='cryptonote/chain.go'; SM='cryptonote/storage_memory.go'; ST='cryptonote/storage.go'; TV='cryptonote/transaction_validator.go'
BL='cryptonote/block.go'; TX='cryptonote/transaction.go'; DI='cryptonote/difficulty.go'; NW='config/network.go'; CP='config/checkpoints.go'
N='p2p/node.go'; PE='p2p/peer.go'; PS='p2p/peerstore.go'; LV='p2p/levin.go'; HS='p2p/command_handshake.go'; GO='p2p/notification_response_get_objects.go'
p('C01','The chain is one unbroken line that only grows',
 'After any sequence of block submissions - valid, invalid, repeated, orphaned, competing or concurrent - the stored chain is a single line that starts at the network genesis block, in which every block names its predecessor by hash and sits exactly one position above it, and whose last block is the reported top. A block that was accepted stays at its position, with the same content, forever. The reported height is always the position of the top plus one and never goes down.',
 ['schedules','inputs','histories'],'all interleavings of concurrent submitters and readers, all sequences of submitted blocks',
 'the only chain test parses the genesis block; no test adds a block',
 [CH,SM],[('previous block lookup and index check in AddBlock',CH),('duplicate index and hash refusal in appendBlock',SM)],['AddBlock results','TopBlock/Height','storage lookups by hash and index'])
p('C02','A refused block leaves no trace, an accepted one is the new top',
 'When submitting a block ends in an error - whatever the reason, including a failing storage write - the top, the height, what can be looked up by hash or by position, and the verdict on every later block are as if the submission had never happened. When it succeeds, the block is the top and can be found by its hash and at its position as soon as the call returns. A refused block can be submitted again later and gets the verdict it would have got the first time.',
 ['inputs','histories','fault_sequences'],'all submission histories, all kinds of refusal, a storage failure at any write',
 'no test submits a block at all, none injects a storage error',
 [CH,SM],[('validation before PushBlock, bestTip set after it',CH),('check-then-insert in appendBlock',SM)],['AddBlock results','TopBlock/Height','HaveBlock/GetBlock/HashAtIndex'],'a storage wrapper that fails chosen writes')
p('C03','Nodes given the same blocks end in the same state',
 'Two nodes of the same network that are given the same blocks and have the same clock give the same verdict on each of them and end with the same chain and the same recorded per-block data. This does not depend on scheduling, on repeated or refused submissions in between, on how the blocks were delivered, or on restarts.',
 ['schedules','histories','fault_sequences'],'pairs of runs over the same block sequence with different schedules, interleaved junk, restarts and internal iteration orders',
 'a test runs one execution; agreement between executions is never compared',
 [CH,NW,TV],[('validation is a function of the chain, the block and the clock',CH)],['AddBlock results','recorded block data'])
p('C04','No money from nowhere: rewards and recorded totals are exact',
 'Every accepted block pays its miner exactly the scheduled reward for the coins generated so far, reduced by the size penalty against the median size of the last 100 blocks, plus the penalised fees of the transactions it contains, and a block that pays any other amount is refused. The recorded total of generated coins, transaction count and size of every block equal those of its predecessor plus what the block itself adds. No accepted transaction creates more than it spends or, unless it is a fusion transaction, pays less than the minimum fee of its height.',
 ['inputs','histories'],'all block and transaction contents over long histories, in every reward era',
 'reward code is tested on no chain; nothing relates recorded totals to the blocks',
 [CH,NW,TV],[('GetBlockReward and the comparison with the miner reward',CH),('blockInfo accumulation',CH)],['AddBlock results','recorded block data'],'access to the recorded per-block data')
p('C05','Only well-formed blocks get in',
 'A block is never accepted unless its version is the one of its height, its coinbase is a single generation input naming its height with unlock height 10 blocks later and valid non-zero outputs, the transactions delivered with it are exactly the ones it lists (same number, same order, none twice, every byte covered by its hash), no key image is used twice in it, its sizes and the sizes of its parts stay within the limits of its height, every transaction obeys the input, output, extra and mixin rules of its height and, from version 5 on, the coinbase has a single output to whose key the block is signed and a well-formed extra without a merge-mining tag.',
 ['inputs'],'all mutations of valid blocks and of their transactions, at all upgrade heights',
 'tests decode four real blocks and never validate one',
 [CH,TV,BL,TX],[('validateBlock',CH),('deserializeTransactions',CH),('blockTransactionsValidator',TV)],['AddBlock results'])
p('C06','Block timestamps stay between the recent median and the near future',
 'A block is refused when its timestamp is later than the node\'s current time by more than the limit of its version (28 minutes before version 4, 12 minutes from version 4), and when it is earlier than the median timestamp of the blocks before it in the check window (the last 60, or 11 from version 4, once there are that many); a block within both bounds is not refused for its timestamp. This holds whatever jumps the node\'s clock makes, and a block refused as too early in time is accepted once the clock has caught up.',
 ['inputs','histories','fault_sequences'],'all timestamps relative to the bounds, all clock jumps between submissions',
 'no test validates a timestamp, the clock cannot be moved in a test',
 [CH,NW],[('timestamp checks in validateBlock',CH),('BlockFutureTimeLimit and BlockTimestampCheckWindow',NW)],['AddBlock results'])
p('C07','Every valid next block is accepted, at any chain length',
 'A block that extends the top and obeys all the rules of its height is accepted: at the first blocks after genesis, with any history length around every averaging window, immediately before and after each protocol upgrade, with and without transactions, at any moderate spacing of block times, and again after any number of refused blocks.',
 ['inputs','histories'],'all valid chains, at all window and upgrade boundaries',
 'no test extends a chain',
 [CH,DI,NW],[('AddBlock',CH),('difficultyForNextBlock',DI),('version upgrade map',NW)],['AddBlock results'])
p('C08','Checkpoints are never overridden and checkpoint queries always answer',
 'A block at a checkpointed position is accepted only if its hash is the checkpoint hash; a position can be checkpointed only once and the first hash stays; the checkpoint zone is every position up to the highest checkpoint. A deeper-than-10-block alternative is allowed only inside the zone and never at or below the last checkpoint already passed, nor at genesis. Every checkpoint query returns, from any number of threads at once.',
 ['schedules','inputs','histories'],'all checkpoint sets added in any order, concurrent queries and additions',
 'tests query a handful of fixed checkpoint sets from one thread',
 [CP,CH],[('checkpoints maps and sorted index under one lock',CP),('CheckBlock call in AddBlock',CH)],['Checkpoints interface','AddBlock results'])
p('C09','The block store is linearizable and never blocks for good',
 'Concurrent block submissions, height and top queries and store lookups behave as if executed one at a time in an order consistent with real time: a lookup that starts after a block was accepted finds it, nothing is seen before it was submitted, and of two competing next blocks exactly one wins. Every call returns.',
 ['schedules'],'all interleavings of concurrent callers',
 'there is no concurrent test and the race detector is not run',
 [CH,SM],[('BlockChain.RWMutex',CH),('memoryStorage.RWMutex',SM)],['return values of every call with invocation and response times'])
p('C10','Messages arrive whole and in order however the connection behaves',
 'Every message the node sends is a well-formed frame whose announced length matches its body, and messages from concurrent or consecutive sends never mix, whatever the peer\'s reading speed and the buffering of the connection. Every complete message a peer sends is processed exactly once, in order, with exactly the bytes sent, no matter how the bytes are split, merged or delayed on the way; a message cut short by a lost connection is not processed at all.',
 ['schedules','fault_sequences','inputs'],'all fragmentations, delays, slow readers and truncation points',
 'tests encode and decode in memory, no byte ever crosses a connection',
 [LV,N],[('io.ReadFull of head and body',LV),('single Write per message',LV)],['bytes on the simulated connection'])
p('C11','Hostile bytes cannot crash, hang or bloat the node',
 'Whatever bytes a peer sends - garbage, broken frames, broken payloads, absurd counts and lengths, broken blocks and transactions - the node keeps running, keeps serving its other peers, writes no file, does not allocate memory out of proportion to the bytes received, and its chain stays valid. A peer whose frame has a wrong signature or announces more than the 100 MB packet limit is disconnected.',
 ['inputs','fault_sequences'],'all byte strings on any number of connections at any time',
 'tests decode well-formed fixtures only',
 [LV,N,'encoding/binary/decode.go',TX,BL,'cryptonote/transaction_extra.go'],[('frame checks in read',LV),('bounds checks of the decoders','encoding/binary/decode.go')],['process liveness, allocation, files, other connections'])
p('C12','Only peers of the same network get in, and only by a handshake',
 'A peer has no effect on the node\'s chain or peer list, and is asked for nothing, before a handshake with the node\'s network identifier has completed on that connection. A connection - incoming or outgoing - whose handshake names another network is dropped without the peer being listed or its blocks being used; so is an outgoing one whose peer speaks a protocol version below the minimum. A second handshake on the same connection, or one on a connection the node itself opened, ends it. None of this crashes the node.',
 ['inputs','histories','fault_sequences'],'all message sequences before, during and after handshakes, on incoming and outgoing connections',
 'tests decode handshake payloads; no handshake is ever performed',
 [HS,PE,N],[('HandleHandshake checks',HS),('checks on the handshake response',PE),('state check before notifications',N)],['messages sent by the node','chain and peer list'])
p('C13','The node takes only blocks it asked for from that peer',
 'While synchronising the node requests from a peer only blocks that this peer has announced, at most 128 at a time, skipping the leading announced blocks it already has; it accepts from a peer\'s answer only blocks it requested from that same peer. A peer that answers with an unrequested block, leaves out a requested one, sends an empty or undecodable answer, attaches the wrong number of transactions, names a chain height below the position of a block it has announced, or delivers a block that breaks the rules is disconnected, and the blocks of that answer after the offence do not enter the chain. The node itself keeps running.',
 ['inputs','histories','schedules'],'all peer answers, with several peers at once',
 'tests decode one stored answer and never process it',
 [GO,PE,N],[('requestedBlocks bookkeeping',GO),('requestMissingBlocks',PE)],['messages sent by the node','chain content'])
p('C14','A node connected to an honest peer catches up',
 'Once network faults stop, a node connected to an honest peer whose longer valid chain extends the node\'s own reaches that peer\'s top within a bounded time, from any starting point on that chain and any length of gap, also when blocks arrive from several peers at once, when the peer\'s chain keeps growing, and after the node or a peer was restarted; misbehaving peers connected at the same time that supply no valid competing blocks cannot prevent it. The node does not disconnect an honest peer, has at most one chain or block request to it unanswered at a time, and asks it for nothing more once it has all its blocks.',
 ['schedules','fault_sequences','histories'],'all fault schedules followed by a quiet period',
 'no test connects a node to anything',
 [N,PE,GO],[('peer state machine in connectionHandler',N),('requestMissingBlocks continuation',PE)],['chain height over time'])
p('C15','Stopping the node stops it, and closed connections are released',
 'After its context is cancelled the node returns from running within 30 seconds, in whatever state its peers are - silent, slow, half-open, mid-handshake, mid-message, not reading - and by then the listening port can be bound again and all its connections are closed; neither stopping nor the end of a connection crashes it. While it runs, a connection that the peer closed, that broke, or that the node gave up is released, so the resources in use do not grow with the number of past connections.',
 ['schedules','fault_sequences'],'all stop times and connection states',
 'no test runs a node',
 [N],[('runListener context check',N),('connection close on stop and at the end of handling',N)],['Run return, open connections, tasks'])
p('C16','The node keeps accepting peers through accept failures and peer churn',
 'As long as the node runs it accepts and serves new peers: after any number of failed accepts, aborted connection attempts, peer crashes and resets, a new honest peer that connects gets its handshake answered within a bounded time. Peers that stay silent or stall in the middle of a message do not delay the others.',
 ['schedules','fault_sequences'],'all sequences of accept errors, connection resets and stalled peers',
 'no test opens a connection',
 [N],[('accept loop of runListener',N),('one handler per connection',N)],['handshake answers'])
p('C17','The peer list stays consistent under concurrent connections',
 'Whatever peers connect, disconnect and are listed at the same time, the node neither crashes nor blocks, every peer list it sends has well-formed entries that name a peer that really handshaked with it, each at most once, with the address it connected from, and a peer that completed an outgoing handshake is listed until it leaves and as a former peer afterwards.',
 ['schedules','histories'],'all interleavings of connection handlers over a shared peer list',
 'the peer list has no test',
 [PS,N],[('white and grey lists',PS)],['peer lists in handshake and timed-sync answers'])
p('C18','What the node tells its peers about itself is true',
 'The height and top hash in every handshake and timed-sync message the node sends belong together and to a block that was its top while the message was being made, so heights on one connection never go down while the node runs; they are one more than the top\'s position. Every such message carries the node\'s own network identifier and, in handshakes, the configured protocol version, the same peer identity for the whole run - the configured one if it was configured - and its current time.',
 ['schedules','histories'],'all moments of chain growth relative to message construction',
 'no test produces such a message from a live chain',
 ['p2p/command.go',HS,N],[('newSyncData from one top block','p2p/command.go'),('node data','p2p/command.go')],['messages sent by the node'])
p('C19','Reopening an existing store continues its chain; a foreign store is refused',
 'Starting a chain over a store that already holds this network\'s blocks succeeds, changes nothing in it and continues from its top as if there had been no restart, at any time and any number of times. Starting over a store whose first block belongs to another network is refused and changes nothing.',
 ['crash_points','histories'],'restarts after any history, over stores of either network',
 'no test starts a chain over an existing store',
 [CH,SM,ST],[('Init of chain and storage',CH),('genesis comparison in storage Init',SM)],['Init result, top, lookups, later verdicts'])
p('C20','Chain requests start at the top, thin out backwards and end at genesis',
 'The list of block hashes with which the node asks for a chain starts with its top block, continues with blocks of its own chain 1, 2, 4, 8, ... positions further back, ends with the genesis block, and contains nothing else and no hash twice, for every chain length. This also holds while blocks are being added at the same time, in which case all entries are relative to one and the same top.',
 ['schedules','histories'],'all chain lengths, all interleavings with block additions',
 'no test builds the list on a chain longer than genesis',
 [CH,'p2p/notification_request_chain.go'],[('BuildSparseChain',CH)],['BuildSparseChain result','chain requests sent'])
p('C21','Keys and signatures stay sound when the random source misbehaves',
 'Generated keys and signatures depend only on the random bytes delivered, not on how the random source splits its reads, and when the source fails nothing is returned as a key or signature. Every signature or ring signature generated verifies for its message and keys and for no other message, whatever the random bytes are, and key generation never repeats unless the random bytes do.',
 ['fault_sequences','inputs'],'all splittings, failures and values of the random source',
 'tests fix three random bytes and compare stored vectors',
 ['crypto/crypto.go','crypto/signature.go','crypto/key.go'],[('RandomScalar reads 64 bytes in full','crypto/crypto.go'),('retry loop in Sign','crypto/signature.go')],['results of key and signature generation'])
p('C22','Recorded difficulty follows the retarget rules of each era',
 'The cumulative difficulty recorded with every accepted block exceeds that of its predecessor by exactly the difficulty that the rules of its era give for the timestamps and cumulative difficulties of the full preceding window, so it grows with every block. In particular it depends on the last blocks of the chain only, is at least the network minimum from version 2 on once the era\'s window has enough blocks, and is independent of the clock and of refused blocks.',
 ['histories','inputs'],'all timestamp histories in every difficulty era and across upgrades',
 'tests cover no difficulty computation on a chain',
 [DI,NW,CH],[('difficultyForNextBlock',DI),('NextDifficulty per version',NW)],['recorded block data'],'access to the recorded per-block data')
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80
print(len(P))
