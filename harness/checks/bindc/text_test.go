package bindc

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/brevis-network/zk-utils/common/eth"
	"pgregory.net/rapid"

	"vharness/vh"
)

func word32(rt *rapid.T) (w [32]byte) {
	copy(w[:], vh.Bytes(rt, "word", 32))
	return
}

func branch(rt *rapid.T) [][32]byte {
	l := make([][32]byte, vh.Even(0, 4).Draw(rt, "branch"))
	for i := range l {
		l[i] = word32(rt)
	}
	return l
}

func field(rt *rapid.T) *big.Int { return vh.BigBelow(rt, "field", vh.Pow2(256)) }

// want collects what a text must show, in order, each after its name if it has one.
type want [][2]string

func (w *want) add(name string, v any) {
	switch x := v.(type) {
	case [32]byte:
		*w = append(*w, [2]string{name, fmt.Sprintf("%x", x[:])})
	case [][32]byte:
		*w = append(*w, [2]string{name, ""})
		for _, b := range x {
			w.add("", b)
		}
	case []*big.Int:
		*w = append(*w, [2]string{name, ""})
		for _, b := range x {
			*w = append(*w, [2]string{"", b.String()})
		}
	case uint64:
		*w = append(*w, [2]string{name, fmt.Sprint(x)})
	case *big.Int:
		*w = append(*w, [2]string{name, x.String()})
	case eth.LeafWithBranch:
		*w = append(*w, [2]string{name, ""})
		w.add("leaf", x.Leaf)
		w.add("branch", x.Branch)
	case eth.BeaconBlockHeader:
		*w = append(*w, [2]string{name, ""})
		w.add("slot", x.Slot)
		w.add("proposerIndex", x.ProposerIndex)
		w.add("parentRoot", x.ParentRoot)
		w.add("stateRoot", x.StateRoot)
		w.add("bodyRoot", x.BodyRoot)
	case eth.ExecutionPayload:
		*w = append(*w, [2]string{name, ""})
		w.add("stateRoot", x.StateRoot)
		w.add("blockHash", x.BlockHash)
		w.add("blockNumber", x.BlockNumber)
	case eth.HeaderWithExecution:
		*w = append(*w, [2]string{name, ""})
		w.add("beacon", x.Beacon)
		w.add("execution", x.Execution)
		w.add("executionRoot", x.ExecutionRoot)
	case eth.IBeaconVerifierProof:
		*w = append(*w, [2]string{name, ""})
		w.add("", []*big.Int{x.A[0], x.A[1], x.B[0][0], x.B[0][1], x.B[1][0], x.B[1][1], x.C[0], x.C[1], x.Commitment[0], x.Commitment[1]})
	case eth.SyncAggregate:
		*w = append(*w, [2]string{name, ""})
		w.add("participation", x.Participation)
		w.add("poseidonRoot", x.PoseidonRoot)
		w.add("commitment", x.Commitment)
		w.add("proof", x.Proof)
	}
}

// in finds everything in order; a value stands alone, right behind its name.
func (w want) in(s string) string {
	const sep = " \t\n[]{}<>:,."
	for _, e := range w {
		if e[0] != "" {
			i := 0
			for {
				j := strings.Index(s[i:], e[0])
				if j < 0 {
					return "name " + e[0]
				}
				i += j + len(e[0])
				if (i == len(e[0]) || strings.ContainsRune(sep, rune(s[i-len(e[0])-1]))) && i < len(s) && strings.ContainsRune(sep, rune(s[i])) {
					break
				}
			}
			s = s[i:]
			if e[1] != "" && strings.IndexFunc(s, func(r rune) bool { return !strings.ContainsRune(sep, r) }) < 0 {
				return "value of " + e[0]
			}
		}
		if e[1] == "" {
			continue
		}
		t := strings.TrimLeft(s, sep)
		if e[0] == "" { // lists may name their parts
			for !strings.HasPrefix(t, e[1]) {
				k := strings.IndexAny(t, sep)
				if k < 0 {
					return "value " + e[1]
				}
				t = strings.TrimLeft(t[k:], sep)
			}
		}
		if !strings.HasPrefix(t, e[1]) || len(t) > len(e[1]) && !strings.ContainsRune(sep, rune(t[len(e[1])])) {
			return "value " + e[1] + " after " + e[0]
		}
		s = t[len(e[1]):]
	}
	return ""
}

func TestC44_Text(t *testing.T) {
	vh.Check(t, 4000, 400000, func(rt *rapid.T, c *vh.Case) {
		u64 := func() uint64 { return rapid.Uint64().Draw(rt, "number") }
		leaf := func() eth.LeafWithBranch { return eth.LeafWithBranch{Leaf: word32(rt), Branch: branch(rt)} }
		header := func() eth.HeaderWithExecution {
			return eth.HeaderWithExecution{
				Beacon:        eth.BeaconBlockHeader{Slot: u64(), ProposerIndex: u64(), ParentRoot: word32(rt), StateRoot: word32(rt), BodyRoot: word32(rt)},
				Execution:     eth.ExecutionPayload{StateRoot: leaf(), BlockHash: leaf(), BlockNumber: leaf()},
				ExecutionRoot: leaf(),
			}
		}
		proof := func() (p eth.IBeaconVerifierProof) {
			for i := 0; i < 2; i++ {
				p.A[i], p.B[i][0], p.B[i][1], p.C[i], p.Commitment[i] = field(rt), field(rt), field(rt), field(rt), field(rt)
			}
			return
		}
		var w want
		var s string
		switch kind := vh.Even(0, 4).Draw(rt, "kind"); kind {
		case 0:
			u := eth.LightClientUpdate{AttestedHeader: header(), FinalizedHeader: header(), FinalityBranch: branch(rt), NextSyncCommitteeRoot: word32(rt),
				NextSyncCommitteeBranch: branch(rt), NextSyncCommitteePoseidonRoot: word32(rt), NextSyncCommitteeRootMappingProof: proof(),
				SyncAggregate: eth.SyncAggregate{Participation: u64(), PoseidonRoot: word32(rt), Commitment: field(rt), Proof: proof()}, SignatureSlot: u64()}
			w.add("attestedHeader", u.AttestedHeader)
			w.add("finalizedHeader", u.FinalizedHeader)
			w.add("finalityBranch", u.FinalityBranch)
			w.add("nextSyncCommitteeRoot", u.NextSyncCommitteeRoot)
			w.add("nextSyncCommitteeBranch", u.NextSyncCommitteeBranch)
			w.add("nextSyncCommitteePoseidonRoot", u.NextSyncCommitteePoseidonRoot)
			w.add("nextSyncCommitteeRootMappingProof", u.NextSyncCommitteeRootMappingProof)
			w.add("syncAggregate", u.SyncAggregate)
			w.add("signatureSlot", u.SignatureSlot)
			s = u.String()
		case 1:
			u := eth.ISMTSmtUpdate{NewSmtRoot: word32(rt), EndBlockNum: u64(), EndBlockHash: word32(rt), NextChunkMerkleRoot: word32(rt)}
			for i := range u.Proof {
				u.Proof[i] = field(rt)
			}
			for i := 0; i < 2; i++ {
				u.Commit[i], u.KnowledgeProof[i] = field(rt), field(rt)
			}
			w.add("newSmtRoot", u.NewSmtRoot)
			w.add("endBlockHash", u.EndBlockHash)
			w.add("endBlockNum", u.EndBlockNum)
			w.add("nextChunkMerkleRoot", u.NextChunkMerkleRoot)
			w.add("proof", u.Proof[:])
			w.add("commit", u.Commit[:])
			w.add("Pok", u.KnowledgeProof[:])
			s = u.String()
		case 2:
			p := proof()
			w.add("a", []*big.Int{p.A[0], p.A[1]})
			w.add("b", []*big.Int{p.B[0][0], p.B[0][1], p.B[1][0], p.B[1][1]})
			w.add("c", []*big.Int{p.C[0], p.C[1]})
			w.add("commitment", []*big.Int{p.Commitment[0], p.Commitment[1]})
			s = p.String()
		case 3:
			ev := &eth.BrevisRequestRequestSent{ProofId: word32(rt), Nonce: u64()}
			w.add("requestId", ev.ProofId)
			w.add("nonce", ev.Nonce)
			s = ev.String()
			if id := u64(); ev.PrettyLog(id) != fmt.Sprintf("RequestSent-%d: %s", id, s) {
				rt.Fatalf("the log line %q lacks the valid chain %d or text %q", ev.PrettyLog(id), id, s)
			}
		case 4:
			ev := &eth.BrevisRequestOpRequestsFulfilled{ProofIds: branch(rt)}
			for range ev.ProofIds {
				ev.Nonces = append(ev.Nonces, u64())
			}
			for i := range ev.ProofIds {
				w.add("requestId", ev.ProofIds[i])
				w.add("nonce", ev.Nonces[i])
			}
			s = ev.String()
			if n := strings.Count(s, "requestId"); n != len(ev.ProofIds) {
				rt.Fatalf("%q shows %d requests of %d valid ones", s, n, len(ev.ProofIds))
			}
			if id := u64(); ev.PrettyLog(id) != fmt.Sprintf("OpRequestsFulfilled-%d: %s", id, s) {
				rt.Fatalf("the log line %q lacks the valid chain %d or text %q", ev.PrettyLog(id), id, s)
			}
		}
		if len(w) > 1 {
			c.Nontrivial(s)
		}
		if miss := w.in(s); miss != "" {
			rt.Fatalf("%q lacks the valid %s", s, miss)
		}
	})
}
