def P(id, title, statement, over, qtext, why, files, mech, note, state=(), observe=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                        "observe_at": list(observe), "hook_needed": None},
            "level_note": note}


NOTE = "Unbounded: every path of the real functions, for every input and every storage content. Assumes the listed contracts of std, cosmwasm-std and cw-storage-plus; hashes and signature checks are uninterpreted."
STD = "packages/axelar-wasm-std/src/"
MS = "contracts/multisig/src/"
RW = "contracts/rewards/src/"
CR = "contracts/connection-router/src/"
GW = "contracts/gateway/src/"
VV = "contracts/voting-verifier/src/"
SR = "contracts/service-registry/src/"
MP = "contracts/multisig-prover/src/"
NX = "contracts/nexus-gateway/src/"
BA = "contracts/batching/src/"
AV = "contracts/aggregate-verifier/src/"
NA = {}
PROPS = [
    P("C01", "A vote counts exactly once, with the voter's snapshot weight",
      "A poll accepts a vote if and only if the sender is in its participant snapshot, has not voted, votes on every item and the poll has not expired. "
      "An accepted vote adds the sender's snapshot weight exactly once to the tally of its vote on each item and to no other tally, records it, and changes nothing else. "
      "A refused vote changes nothing.",
      ["inputs", "histories"], "every poll, voter, weight, vote vector and block height; every order of votes",
      "The tests cast a handful of votes with two or three voters and one or two items; the guarantee is over every weight, poll size, voter and order.",
      [STD + "voting.rs"], [("WeightedPoll::cast_vote", STD + "voting.rs"), ("Tallies::tally", STD + "voting.rs")],
      "Unbounded: every path of the real functions, for every input. Assumes the listed contracts of std and cosmwasm-std."),
    P("C02", "A poll's result is the vote that reached the quorum, and only that",
      "An item's result is a vote exactly when the tally of that vote is at least the quorum; with a majority quorum no two votes can both have it, and a result once reached never changes. "
      "The consensus participants are exactly the voters who voted with the result on every decided item. "
      "A poll can be finished once, only at or after its expiry, and finishing changes nothing else.",
      ["inputs", "histories"], "every poll state, quorum, tally and participant set; every block height",
      "The tests check a few tallies around one quorum; the guarantee is over every distribution of weights, and over ties and undecided items.",
      [STD + "voting.rs"], [("Tallies::consensus", STD + "voting.rs"), ("WeightedPoll::state", STD + "voting.rs"), ("WeightedPoll::finish", STD + "voting.rs")],
      "Unbounded: every path of the real functions, for every input. Assumes the listed contracts of std and cosmwasm-std."),
    P("C03", "Quorums are true majorities of the snapshot weight",
      "A threshold is a fraction in (0,1] and a majority threshold is above one half, however it is built. "
      "A snapshot's quorum is the threshold share of the total participant weight rounded up, so it is more than half of that weight and at most all of it. "
      "A snapshot holds exactly the given participants with their weights.",
      ["inputs"], "every numerator, denominator, participant list and weight",
      "The tests use a few fractions and small participant lists; rounding and integer division are wrong only for particular numerators, denominators and totals.",
      [STD + "threshold.rs", STD + "snapshot.rs"],
      [("Threshold/MajorityThreshold conversions", STD + "threshold.rs"), ("Snapshot::new", STD + "snapshot.rs")],
      "Unbounded: every path of the real functions, for every input; sums over participants by induction. JSON decoding of thresholds is covered by bounded executable contracts only."),
    P("C05", "A signing session completes exactly when the signed weight reaches the threshold, and stays completed",
      "A session gets a fresh id, starts pending for the given message and registered signer set, and neither changes afterwards. "
      "A submitted signature completes the session, at the current height, exactly when the session was pending and the weights of the members who have signed add up to at least the set's threshold; a completed session never changes. "
      "Nothing else, in particular no other session's signatures, changes a session. A query shows the state, the threshold, and every member with its own signature.",
      ["inputs", "histories"], "every signer set, weight, threshold, signature order and interleaving of sessions",
      "The tests complete sessions of two signers with equal weights; the guarantee is over every distribution of weights, every order, and sessions that share signers.",
      [MS + "signing.rs", MS + "contract.rs", MS + "state.rs"],
      [("SigningSession::recalculate_session_state", MS + "signing.rs"), ("start_signing_session, submit_signature, get_multisig", MS + "contract.rs")], NOTE),
    P("C06", "A multisig signature is accepted only from a member, once, if it verifies for the session's message under the member's own key",
      "A signature is accepted if and only if the session exists, the sender is a member of its signer set, the signature has its key type's length and verifies for the session's message under the key the signer set holds for the sender, the sender has not signed the session yet, and a completed session's grace period has not passed. "
      "It is recorded under the session and the sender, no other signature changes, and the sender's participation in the session is reported to the rewards contract, with no other message.",
      ["inputs", "histories"], "every session state, member, key type, signature and height",
      "The tests use fixed keys and one or two sessions; replayed, misdirected and late signatures come in every combination of session, signer, key type and height.",
      [MS + "signing.rs", MS + "contract.rs", MS + "key.rs", MS + "secp256k1.rs", MS + "ed25519.rs", MS + "state.rs"],
      [("validate_session_signature", MS + "signing.rs"), ("Signature::verify", MS + "key.rs"), ("save_signature", MS + "state.rs")], NOTE),
    P("C07", "Only governance decides who may start signing sessions; keys and signer sets are registered under their owner and their content",
      "Only an authorized caller starts a signing session, only governance authorizes and unauthorizes callers, and each such message changes exactly the named caller. "
      "A public key is registered for its sender and its own key type and for nobody else, and a query returns the latest one. "
      "A signer set is registered under the hash of its full content, so different sets have different ids and a registered set never changes.",
      ["inputs", "histories"], "every sender, key, signer set and order of messages",
      "The tests try one authorized and one unauthorized sender and one signer set; the guarantee is over every history of authorizations and registrations.",
      [MS + "contract.rs", MS + "state.rs", MS + "worker_set.rs"],
      [("require_authorized_caller, require_governance, register_pub_key, register_worker_set", MS + "contract.rs"), ("WorkerSet::id", MS + "worker_set.rs")], NOTE),
    P("C14", "Participation is counted once per event report, in the epoch of the event's first report, under the parameters of that epoch",
      "A contract's event belongs to the epoch in which it was first reported, and is counted once; every report adds one participation of the reported worker to the tally of that epoch and contract and changes nothing else, and a tally keeps the parameters it began with. "
      "Epochs last the configured number of blocks. Only governance changes the parameters; a change keeps the current epoch, or starts the next one if the new duration has already run out, so no block ever falls into an earlier epoch or skips one because of it.",
      ["inputs", "histories"], "every history of reports, parameter changes and block heights, for any number of contracts, workers and events",
      "The tests follow one or two contracts through fixed heights; late reports, interleaved contracts and parameter changes in mid-epoch combine without bound.",
      [RW + "contract/execute.rs", RW + "state.rs", RW + "contract.rs"],
      [("record_participation, current_epoch, update_params", RW + "contract/execute.rs"), ("EpochTally::record_participation", RW + "state.rs")], NOTE),
    P("C15", "Rewards are paid once, after the delay, to exactly the workers that earned them, and out of the contract's own pool",
      "A distribution pays a contract's epochs after its watermark, at most as many as asked for, and only those that ended at least one full epoch ago; it moves the watermark past them, so no epoch is paid twice. "
      "In each paid epoch the workers whose participation reached the epoch's threshold share its rewards equally, rounded down, and each worker is sent exactly the sum of its shares in the rewards denomination. "
      "The contract's pool shrinks by exactly what is sent and never below zero, other contracts' pools and watermarks are untouched, and a pool grows only by the one non-zero coin of the rewards denomination sent to it.",
      ["inputs", "histories"], "every tally, pool, watermark, limit and height; any number of epochs and workers",
      "The tests distribute a few epochs with equal participation; the sums, the rounding, the limits and the delay interact over arbitrary histories.",
      [RW + "contract/execute.rs", RW + "state.rs", RW + "contract.rs"],
      [("distribute_rewards, process_rewards_for_epochs, merge_rewards, add_rewards", RW + "contract/execute.rs"), ("EpochTally::rewards_by_worker", RW + "state.rs")], NOTE),
    P("C08", "The router passes on only what a chain's own gateway sent, once, unchanged, and to the right gateway",
      "Messages are routed only for the nexus gateway or for the gateway registered for a chain, and a registered gateway's messages must all come from its own chain, whose incoming direction must not be frozen. "
      "Every message goes to the gateway registered for its destination chain, never to a chain whose outgoing direction is frozen; a message for an unknown chain goes to the nexus gateway, unless the nexus gateway sent it, which is refused. "
      "All messages submitted are sent exactly once, unchanged and in order, as RouteMessages calls without funds, or none is; permitted messages are never refused, and routing changes no state.",
      ["inputs", "histories"], "every sender, registry and list of messages, of any length and with any mix of destinations",
      "The tests route short lists between a few chains; the grouping by destination and the freezing rules interact over arbitrary lists and registries.",
      [CR + "contract/execute.rs", CR + "contract.rs", CR + "state.rs"],
      [("Contract::route_messages, validate_msgs", CR + "contract/execute.rs"), ("GatewayIndex::load_chain_by_gateway", CR + "state.rs")], NOTE),
    P("C09", "The router's registry changes only as governance and the admin say",
      "Only governance registers a chain or changes its gateway; a chain is registered once, unfrozen, and a gateway serves at most one chain at any time. "
      "Only the admin freezes and unfreezes, and exactly the given directions of exactly the given chain change; changing a gateway keeps the chain's frozen directions. "
      "Each message changes the named chain only and sends nothing, what governance and the admin may do is not refused, and the query answers what is stored.",
      ["inputs", "histories"], "every sender, chain, gateway, direction and history of messages",
      "The tests go through one sequence per message; the guarantees are about every combination of earlier registrations, upgrades and freezes.",
      [CR + "contract.rs", CR + "contract/execute.rs", CR + "contract/query.rs", CR + "state.rs", STD + "flagset.rs"],
      [("register_chain, upgrade_gateway, freeze_chain, unfreeze_chain, require_admin, require_governance", CR + "contract/execute.rs"), ("execute, instantiate, query", CR + "contract.rs"), ("FlagSet", STD + "flagset.rs")], NOTE),
    P("C10", "The gateway forwards exactly the verified messages, and stores for a destination only what the router delivered",
      "Of the messages anyone submits, the gateway forwards to the router exactly those the verifier confirms, unchanged, each once, in a single call without funds, and changes no state. "
      "A request to verify sends exactly the messages not yet verified to the verifier, once. "
      "Only the router's messages are stored for the destination: every one under its own id, none other, and the query answers them in the order asked for. "
      "A call with a repeated id is refused as a whole; nothing else is, while the verifier answers.",
      ["inputs", "histories"], "every sender, list of messages, verifier answer and stored state",
      "The tests check lists up to ten messages with fixed verdicts; the partition, the ids and the frame must be right for every list and every answer.",
      [GW + "contract/execute.rs", GW + "contract/query.rs", GW + "contract.rs", GW + "state.rs"],
      [("route_messages, route_incoming_messages, route_outgoing_messages, verify_messages, partition_by_verified, ensure_unique_ids", GW + "contract/execute.rs"), ("get_messages, VerifierApi::verify", GW + "contract/query.rs")], NOTE),
    P("C12", "A message counts as verified exactly when a quorum of the chain's active workers, each voting once in its poll before expiry, confirmed it",
      "A message is reported verified exactly if it has a place in a poll in which the votes for its success reach the quorum; never otherwise, and nobody's request changes that. "
      "A request to verify puts exactly the messages that never were in a poll, or whose poll ended without success, into one new poll, each in a place of its own; the poll's voters are the active workers of the chain with weight one, its quorum is the configured share rounded up, and it expires as configured. "
      "Only such a voter votes, once, for every item, before the expiry; every request answers with the statuses at that moment, in order.",
      ["inputs", "histories"], "every batch of messages (any length, repeats included), every worker set, threshold, vote and height, over every history of polls",
      "The tests poll fixed messages with one or two workers; statuses depend on the interplay of batches, votes, expiries and re-polls.",
      [VV + "execute.rs", VV + "query.rs", VV + "state.rs", VV + "contract.rs", STD + "voting.rs", STD + "snapshot.rs", STD + "counter.rs"],
      [("verify_messages, vote, take_snapshot, create_messages_poll", VV + "execute.rs"), ("is_verified, msg_verification_status, verification_status", VV + "query.rs"), ("Poll::try_map, PollContent::new", VV + "state.rs"), ("WeightedPoll", STD + "voting.rs")], NOTE),
    P("C13", "A poll ends once, after its expiry, with its result, and rewards exactly the voters that agreed; worker sets are confirmed by polls of their own",
      "An open poll past its expiry can be ended, by anybody, and no other poll; its terms, votes and tallies stay as they were, the reply is its result, and exactly the voters whose votes agree with every result reached are recorded with the rewards contract, once each, under the poll's id. "
      "A worker set is confirmed exactly if the poll last started for it has a quorum for its success; a request starts a poll of one item over the chain's active workers, and is refused once the worker set is confirmed.",
      ["inputs", "histories"], "every poll, vote, height, worker set and history",
      "The tests end a few polls with unanimous votes; which voters agreed, the frame and the single end must hold for every poll.",
      [VV + "execute.rs", VV + "query.rs", VV + "state.rs", VV + "contract.rs", STD + "voting.rs", STD + "operators.rs"],
      [("end_poll, verify_worker_set, create_worker_set_poll", VV + "execute.rs"), ("worker_set_verification_status, is_worker_set_verified", VV + "query.rs"), ("WeightedPoll::finish, WeightedPoll::state", STD + "voting.rs")], NOTE),
    P("C16", "A worker's stake is what it bonded, is paid back once, in full, to the worker, and only after the unbonding period",
      "Bonding adds exactly the one coin sent, of the service's own denomination, to the sender's stake, and takes no other coin; unbonding starts the period for the whole stake at that moment, and bonding again ends it. "
      "A claim succeeds exactly when the stake has been unbonding for the service's full period; it sends exactly the stake to its worker in the service's denomination and leaves nothing, so no stake is paid twice. "
      "No message changes another worker's stake, and a registered service keeps its denomination and period.",
      ["inputs", "histories"], "every worker, service, amount, time and history of bonding, unbonding and claims",
      "The tests go through one bonding cycle; amounts, periods, services and workers interleave without bound.",
      [SR + "contract.rs", SR + "state.rs"],
      [("bond_worker, unbond_worker, claim_stake", SR + "contract.rs"), ("BondingState::add_bond, unbond, claim_stake", SR + "state.rs")], NOTE),
    P("C17", "The active workers of a chain are exactly those that governance authorized, that hold the minimum bond, and that declared support",
      "The active workers reported for a service and chain are exactly the workers authorized by governance for that service, with at least its minimum stake bonded, that themselves declared support for that chain; each once, with its record. "
      "Only governance registers a service, once and unchanged afterwards, and authorizes or unauthorizes exactly the named workers; only a worker declares support, for itself. "
      "Each message leaves every other record as it was, what governance and workers may do is not refused, and the queries answer what is recorded.",
      ["inputs", "histories"], "every service, chain, list of workers and chains (any length, repeats included) and history",
      "The tests check one worker and one condition at a time; the set reported depends on every earlier message about every worker, service and chain.",
      [SR + "contract.rs", SR + "state.rs"],
      [("register_service, update_worker_authorization_status, declare_chains_support, require_governance, get_active_workers, get_worker, get_service", SR + "contract.rs")], NOTE),
    P("C18", "The signer set changes only to the active workers' set, and only after the destination gateway took it over",
      "A signer set consists of exactly the service's active workers, each with the key it registered and weight one, with the configured share of the total weight, rounded up, as threshold. "
      "Without a current set it becomes current at once; otherwise it is only proposed, when more signers changed than tolerated, and replaces a proposed set only if the signers and the threshold are the same. "
      "A proposal is the batch with the one command that hands the destination gateway over to exactly that set (members ascending, weights, threshold), signed by the current set. "
      "A proposed set becomes current only when the voting verifier says that the gateway took over exactly that set. The multisig contract is told of every new current set, and nothing else changes the sets.",
      ["inputs", "histories"], "every worker list, key, configuration, encoder, stored set and history",
      "The tests rotate between two fixed sets; which set is current, proposed and signed for depends on every earlier message and on the other contracts' answers.",
      [MP + "execute.rs", MP + "encoding/abi.rs", MP + "encoding/bcs.rs", MP + "encoding/mod.rs", "contracts/multisig/src/worker_set.rs"],
      [("update_worker_set, confirm_worker_set, construct_proof, should_update_worker_set, different_set_in_progress, make_worker_set, save_next_worker_set", MP + "execute.rs"),
       ("transfer_operatorship_params, make_operators, msg_digest", MP + "encoding/abi.rs, encoding/bcs.rs")], NOTE),
    P("C19", "A proof is of exactly the requested messages, signed by the session's signers over exactly that data",
      "A proof is started only for messages that the gateway has for this chain. The batch lists them in order, one approval command each that names the message's source chain, source address, destination and payload hash under the hash of the message id, "
      "after the command to hand over to the next set if there is one; it is stored under the hash of what it contains and never changes afterwards. The current set is asked to sign its digest, and the session is filed under that batch. "
      "A completed session's proof holds exactly the batch's data, every signer with its weight in ascending order, the session's quorum, and signatures of signers over that data only, in the members' order, which together reach the quorum whenever all those submitted do.",
      ["inputs", "histories"], "every list of messages, signer set, signature set, encoder and stored state, any number of commands, signers and signatures",
      "The tests encode one fixed batch with fixed signers; whether data, digest, members and signatures agree must hold for every batch and signer set, and across sessions that share a batch.",
      [MP + "execute.rs", MP + "query.rs", MP + "reply.rs", MP + "types.rs", MP + "encoding/abi.rs", MP + "encoding/bcs.rs", MP + "encoding/mod.rs", "contracts/multisig/src/key.rs"],
      [("construct_proof, get_messages", MP + "execute.rs"), ("get_proof, optimize_signers", MP + "query.rs"), ("start_multisig_reply", MP + "reply.rs"), ("BatchId::new", MP + "types.rs"),
       ("encode, msg_digest, encode_execute_data, encode_proof, command_params", MP + "encoding/abi.rs, encoding/bcs.rs"), ("NonRecoverable::to_recoverable", "contracts/multisig/src/key.rs")],
      NOTE + " Bounded (replay only): that the signatures kept reach the quorum."),
    P("C20", "Every message the router delivers for nexus is sent to nexus exactly once, and messages from nexus pass unchanged",
      "Only the router delivers messages for nexus and only nexus delivers messages for the router. A message is sent to nexus the first time a message with its id (source chain and message id) is delivered and never again: not by a later delivery and not by a repetition in the same batch; no message is dropped. "
      "Nexus is told the message's source and destination, its payload hash, and the transaction and index its id names (the id itself when it names none). Messages from nexus go to the router as they are, named by transaction and index; they change no state.",
      ["inputs", "histories"], "every sender, batch and history of delivered ids",
      "The tests deliver a few distinct ids against a mock store; which ids were delivered before, and within the batch, is history.",
      ["contracts/nexus-gateway/src/contract/execute.rs", "contracts/nexus-gateway/src/state.rs", "contracts/nexus-gateway/src/nexus.rs", "contracts/nexus-gateway/src/contract.rs"],
      [("execute, instantiate, route_to_nexus, route_to_router, From<connection_router::Message>, From<Message>, parse_message_id, is_message_routed, set_message_routed", "contracts/nexus-gateway/src")], NOTE),
    P("C21", "A batch sends every message, in order; only those that may fail can fail without reverting it",
      "A batch sends first the messages that must succeed, in the order given and without catching their failure, and then those that may fail, in the order given, each with its failure and success answered under its own place. It sends nothing else, keeps funds and messages as they are, is refused to nobody, and no answer makes it fail or sends anything.",
      ["inputs"], "every list of messages and every answer",
      "The tests dispatch one fixed list; the statement is about every one.",
      ["contracts/batching/src/contract.rs"],
      [("execute, dispatch, reply", "contracts/batching/src/contract.rs")], NOTE),
    P("C22", "The aggregate verifier passes questions and answers through unchanged",
      "VerifyMessages sends exactly the given messages, without funds, to the configured verifier, whose failure is the call's failure and whose answer is passed on byte for byte; IsVerified answers what the verifier answers about exactly the given messages. Neither changes state.",
      ["inputs"], "every list of messages and every answer of the verifier",
      "The tests use one mock verifier with fixed answers.",
      ["contracts/aggregate-verifier/src/contract.rs"],
      [("execute, reply, query, instantiate, verify_messages", "contracts/aggregate-verifier/src/contract.rs")], NOTE),
    P("C23", "The hash of a set of operators stands for exactly its members, weights and threshold",
      "A set of operators keeps every given member with its weight, each once, in ascending order of addresses whatever order they were given in. Two sets have the same hash only if they have the same members, weights and threshold (keccak is taken to be collision free), and the same members (addresses distinct), weights and threshold give the same hash.",
      ["inputs"], "every list of members and every threshold",
      "The test pins the hash of one set; that no other set shares it is about every set.",
      ["packages/axelar-wasm-std/src/operators.rs"],
      [("Operators::new, Operators::hash", "packages/axelar-wasm-std/src/operators.rs")], NOTE),
    P("C04", "Values that must be present are, and chain names, ids and addresses are canonical",
      "A nonempty text, list, number or time is never empty or zero, whether it was converted or read from a message, an answer or the storage, and holds what it was made of. "
      "A chain name is the lower case of a text that is not empty and has no ':', made the same way however it is given, read back from a storage key as written, and equal to any case of its name. "
      "The text of a cross-chain id reads as that id, different ids have different texts and different storage keys (so do chain names, polls, batches and kinds of public keys), and an id or poll read back from its key is the one stored; an address is a text that is not empty. A message's hash is that of its id, source, destination and payload hash.",
      ["inputs"], "every text, number, list and serialized value",
      "Tests try single zeros and a few malformed names; a type's invariant must hold for every way its values come about, including derived deserialization, and a round trip for every text.",
      ["packages/axelar-wasm-std/src/nonempty/string.rs", "packages/axelar-wasm-std/src/nonempty/vec.rs", "packages/axelar-wasm-std/src/nonempty/uint.rs", "packages/axelar-wasm-std/src/nonempty/timestamp.rs", "contracts/connection-router/src/state.rs", "packages/axelar-wasm-std/src/voting.rs", "contracts/multisig-prover/src/types.rs", "contracts/multisig/src/key.rs"],
      [("PrimaryKey::key, KeyDeserialize::from_vec of ChainName, CrossChainId, PollId, BatchId, KeyType", "contracts/connection-router/src/state.rs"),
       ("TryFrom / FromStr / Deserialize of nonempty::{String, Vec, Uint64, Uint128, Uint256, Timestamp}", "packages/axelar-wasm-std/src/nonempty/uint.rs"),
       ("ChainName, CrossChainId, Address, Message::hash", "contracts/connection-router/src/state.rs")], NOTE),
]
PROPS.sort(key=lambda p: p["id"])
