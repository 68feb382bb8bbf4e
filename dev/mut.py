import sys, subprocess, json, os
MUT=[
("completed-again","C05","contracts/multisig/src/signing.rs","if self.state == MultisigState::Pending && weight >= worker_set.threshold {","if weight >= worker_set.threshold {"),
("any-all","C08","contracts/connection-router/src/contract/execute.rs","if msgs.iter().any(|msg| msg.cc_id.chain != source_chain.name) {","if msgs.first().map_or(false, |msg| msg.cc_id.chain != source_chain.name) {"),
("upgrade-unfreezes","C09","contracts/connection-router/src/contract/execute.rs","""            chain.gateway.address = contract_address.clone();
            Ok(chain)""","""            chain = ChainEndpoint {
                gateway: Gateway {
                    address: contract_address.clone(),
                },
                frozen_status: FlagSet::from(GatewayDirection::None),
                ..chain
            };
            Ok(chain)"""),
("adjacent-ids","C10","contracts/gateway/src/contract/execute.rs","""        .map(|m| &m.cc_id)
        .duplicates()
        .map(|cc_id| cc_id.to_string())""","""        .map(|m| &m.cc_id)
        .tuple_windows()
        .filter(|(a, b)| a == b)
        .map(|(cc_id, _)| cc_id.to_string())"""),
("stale-params","C14","contracts/rewards/src/contract/execute.rs","""            .then(|mut tally| {
                if matches!""","""            .then(|mut tally| {
                tally.params = self.store.load_params().params;
                if matches!"""),
("early-unanimous","C13","packages/axelar-wasm-std/src/voting.rs","        if block_height < self.expires_at {\n            return Err(Error::PollNotEnded);","        if block_height < self.expires_at\n            && self.participation.values().any(|p| p.vote.is_none())\n        {\n            return Err(Error::PollNotEnded);"),
("floor-plus-one","C03","packages/axelar-wasm-std/src/snapshot.rs","nonempty::Uint256::try_from(total_weight.mul_ceil(quorum_threshold))","nonempty::Uint256::try_from(total_weight.mul_floor(quorum_threshold))"),
("old-index","C12","contracts/voting-verifier/src/execute.rs","""        .filter_map(|(status, message)| match status {
            VerificationStatus::FailedToVerify | VerificationStatus::NotVerified => Some(message),
            VerificationStatus::InProgress | VerificationStatus::Verified => None,
        })
        .collect();""","""        .filter_map(|(status, message)| match status {
            VerificationStatus::FailedToVerify | VerificationStatus::NotVerified => Some(message),
            VerificationStatus::InProgress | VerificationStatus::Verified => None,
        })
        .unique_by(|message| message.cc_id.clone())
        .collect();"""),
("no-duplicate-vote","C01","packages/axelar-wasm-std/src/voting.rs","        if participation.vote.is_some() {","        if participation.vote.as_ref() == Some(&votes) {"),
("late-epoch","C15","contracts/rewards/src/contract/execute.rs","            cur_epoch.epoch_num.saturating_sub(EPOCH_PAYOUT_DELAY),\n        );","            cur_epoch.epoch_num.saturating_sub(EPOCH_PAYOUT_DELAY).max(from),\n        );"),
("replaced-signature","C05","contracts/multisig/src/state.rs","""                Some(_) => Err(ContractError::DuplicateSignature {""","""                Some(sig) if sig == signature => Err(ContractError::DuplicateSignature {"""),
]
def sh(*a,**k): return subprocess.run(a,capture_output=True,text=True,**k)
def apply(m):
    p="/repo/"+m[2]; s=open(p).read(); assert s.count(m[3])==1,(m[0],s.count(m[3])); open(p,"w").write(s.replace(m[3],m[4]))
def revert(): sh("git","-C","/repo","checkout","--",".")
if __name__=="__main__":
    base=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for m in MUT:
        if len(sys.argv)>1 and m[0] not in sys.argv[1:]: continue
        try:
            apply(m)
            open(f"/tmp/muts/{m[0]}.diff","w").write(sh("git","-C","/repo","diff").stdout)
            b=sh("bash","/opt/vp/build.sh")
            if b.returncode: print(m[0],"NO BUILD",[l for l in b.stderr.split("\n") if l.startswith("error")][:3]); print(b.stderr[-1500:] if len(sys.argv)>1 else ""); continue
            sh("bash","/opt/vp/test.sh","/tmp/muts/out.json")
            r=json.load(open("/tmp/muts/out.json"))
            bad=sorted(base-set(r["passed"]))
            print(m[0],m[1],"SURVIVES" if not bad else f"killed by {len(bad)}: {bad[0][-80:]}",flush=True)
        finally: revert()
