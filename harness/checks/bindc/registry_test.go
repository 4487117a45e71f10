// Code generated by gen. DO NOT EDIT.

package bindc

import (
	"github.com/brevis-network/zk-utils/common/bsc"
	"github.com/brevis-network/zk-utils/common/eth"
)

var registry = []contract{
	{"bsc.BSCValidatorSet", bsc.NewBSCValidatorSet, bsc.NewBSCValidatorSetCaller, bsc.NewBSCValidatorSetTransactor, bsc.NewBSCValidatorSetFilterer, bsc.DeployBSCValidatorSet, bsc.BSCValidatorSetBin, bsc.BSCValidatorSetABI,
		bsc.BSCValidatorSetSession{}, bsc.BSCValidatorSetCallerSession{}, bsc.BSCValidatorSetTransactorSession{}, bsc.BSCValidatorSetRaw{}, bsc.BSCValidatorSetCallerRaw{}, bsc.BSCValidatorSetTransactorRaw{}},
	{"bsc.BatchEntry", bsc.NewBatchEntry, bsc.NewBatchEntryCaller, bsc.NewBatchEntryTransactor, bsc.NewBatchEntryFilterer, bsc.DeployBatchEntry, bsc.BatchEntryBin, bsc.BatchEntryABI,
		bsc.BatchEntrySession{}, bsc.BatchEntryCallerSession{}, bsc.BatchEntryTransactorSession{}, bsc.BatchEntryRaw{}, bsc.BatchEntryCallerRaw{}, bsc.BatchEntryTransactorRaw{}},
	{"bsc.BatchProof", bsc.NewBatchProof, bsc.NewBatchProofCaller, bsc.NewBatchProofTransactor, bsc.NewBatchProofFilterer, bsc.DeployBatchProof, bsc.BatchProofBin, bsc.BatchProofABI,
		bsc.BatchProofSession{}, bsc.BatchProofCallerSession{}, bsc.BatchProofTransactorSession{}, bsc.BatchProofRaw{}, bsc.BatchProofCallerRaw{}, bsc.BatchProofTransactorRaw{}},
	{"bsc.BlockID", bsc.NewBlockID, bsc.NewBlockIDCaller, bsc.NewBlockIDTransactor, bsc.NewBlockIDFilterer, bsc.DeployBlockID, bsc.BlockIDBin, bsc.BlockIDABI,
		bsc.BlockIDSession{}, bsc.BlockIDCallerSession{}, bsc.BlockIDTransactorSession{}, bsc.BlockIDRaw{}, bsc.BlockIDCallerRaw{}, bsc.BlockIDTransactorRaw{}},
	{"bsc.Bytes", bsc.NewBytes, bsc.NewBytesCaller, bsc.NewBytesTransactor, bsc.NewBytesFilterer, bsc.DeployBytes, bsc.BytesBin, bsc.BytesABI,
		bsc.BytesSession{}, bsc.BytesCallerSession{}, bsc.BytesTransactorSession{}, bsc.BytesRaw{}, bsc.BytesCallerRaw{}, bsc.BytesTransactorRaw{}},
	{"bsc.BytesLib", bsc.NewBytesLib, bsc.NewBytesLibCaller, bsc.NewBytesLibTransactor, bsc.NewBytesLibFilterer, bsc.DeployBytesLib, bsc.BytesLibBin, bsc.BytesLibABI,
		bsc.BytesLibSession{}, bsc.BytesLibCallerSession{}, bsc.BytesLibTransactorSession{}, bsc.BytesLibRaw{}, bsc.BytesLibCallerRaw{}, bsc.BytesLibTransactorRaw{}},
	{"bsc.CanonicalBlockID", bsc.NewCanonicalBlockID, bsc.NewCanonicalBlockIDCaller, bsc.NewCanonicalBlockIDTransactor, bsc.NewCanonicalBlockIDFilterer, bsc.DeployCanonicalBlockID, bsc.CanonicalBlockIDBin, bsc.CanonicalBlockIDABI,
		bsc.CanonicalBlockIDSession{}, bsc.CanonicalBlockIDCallerSession{}, bsc.CanonicalBlockIDTransactorSession{}, bsc.CanonicalBlockIDRaw{}, bsc.CanonicalBlockIDCallerRaw{}, bsc.CanonicalBlockIDTransactorRaw{}},
	{"bsc.CanonicalPartSetHeader", bsc.NewCanonicalPartSetHeader, bsc.NewCanonicalPartSetHeaderCaller, bsc.NewCanonicalPartSetHeaderTransactor, bsc.NewCanonicalPartSetHeaderFilterer, bsc.DeployCanonicalPartSetHeader, bsc.CanonicalPartSetHeaderBin, bsc.CanonicalPartSetHeaderABI,
		bsc.CanonicalPartSetHeaderSession{}, bsc.CanonicalPartSetHeaderCallerSession{}, bsc.CanonicalPartSetHeaderTransactorSession{}, bsc.CanonicalPartSetHeaderRaw{}, bsc.CanonicalPartSetHeaderCallerRaw{}, bsc.CanonicalPartSetHeaderTransactorRaw{}},
	{"bsc.CanonicalVote", bsc.NewCanonicalVote, bsc.NewCanonicalVoteCaller, bsc.NewCanonicalVoteTransactor, bsc.NewCanonicalVoteFilterer, bsc.DeployCanonicalVote, bsc.CanonicalVoteBin, bsc.CanonicalVoteABI,
		bsc.CanonicalVoteSession{}, bsc.CanonicalVoteCallerSession{}, bsc.CanonicalVoteTransactorSession{}, bsc.CanonicalVoteRaw{}, bsc.CanonicalVoteCallerRaw{}, bsc.CanonicalVoteTransactorRaw{}},
	{"bsc.ClientState", bsc.NewClientState, bsc.NewClientStateCaller, bsc.NewClientStateTransactor, bsc.NewClientStateFilterer, bsc.DeployClientState, bsc.ClientStateBin, bsc.ClientStateABI,
		bsc.ClientStateSession{}, bsc.ClientStateCallerSession{}, bsc.ClientStateTransactorSession{}, bsc.ClientStateRaw{}, bsc.ClientStateCallerRaw{}, bsc.ClientStateTransactorRaw{}},
	{"bsc.CmnPkg", bsc.NewCmnPkg, bsc.NewCmnPkgCaller, bsc.NewCmnPkgTransactor, bsc.NewCmnPkgFilterer, bsc.DeployCmnPkg, bsc.CmnPkgBin, bsc.CmnPkgABI,
		bsc.CmnPkgSession{}, bsc.CmnPkgCallerSession{}, bsc.CmnPkgTransactorSession{}, bsc.CmnPkgRaw{}, bsc.CmnPkgCallerRaw{}, bsc.CmnPkgTransactorRaw{}},
	{"bsc.Commit", bsc.NewCommit, bsc.NewCommitCaller, bsc.NewCommitTransactor, bsc.NewCommitFilterer, bsc.DeployCommit, bsc.CommitBin, bsc.CommitABI,
		bsc.CommitSession{}, bsc.CommitCallerSession{}, bsc.CommitTransactorSession{}, bsc.CommitRaw{}, bsc.CommitCallerRaw{}, bsc.CommitTransactorRaw{}},
	{"bsc.CommitSig", bsc.NewCommitSig, bsc.NewCommitSigCaller, bsc.NewCommitSigTransactor, bsc.NewCommitSigFilterer, bsc.DeployCommitSig, bsc.CommitSigBin, bsc.CommitSigABI,
		bsc.CommitSigSession{}, bsc.CommitSigCallerSession{}, bsc.CommitSigTransactorSession{}, bsc.CommitSigRaw{}, bsc.CommitSigCallerRaw{}, bsc.CommitSigTransactorRaw{}},
	{"bsc.CommitmentProof", bsc.NewCommitmentProof, bsc.NewCommitmentProofCaller, bsc.NewCommitmentProofTransactor, bsc.NewCommitmentProofFilterer, bsc.DeployCommitmentProof, bsc.CommitmentProofBin, bsc.CommitmentProofABI,
		bsc.CommitmentProofSession{}, bsc.CommitmentProofCallerSession{}, bsc.CommitmentProofTransactorSession{}, bsc.CommitmentProofRaw{}, bsc.CommitmentProofCallerRaw{}, bsc.CommitmentProofTransactorRaw{}},
	{"bsc.Compress", bsc.NewCompress, bsc.NewCompressCaller, bsc.NewCompressTransactor, bsc.NewCompressFilterer, bsc.DeployCompress, bsc.CompressBin, bsc.CompressABI,
		bsc.CompressSession{}, bsc.CompressCallerSession{}, bsc.CompressTransactorSession{}, bsc.CompressRaw{}, bsc.CompressCallerRaw{}, bsc.CompressTransactorRaw{}},
	{"bsc.CompressedBatchEntry", bsc.NewCompressedBatchEntry, bsc.NewCompressedBatchEntryCaller, bsc.NewCompressedBatchEntryTransactor, bsc.NewCompressedBatchEntryFilterer, bsc.DeployCompressedBatchEntry, bsc.CompressedBatchEntryBin, bsc.CompressedBatchEntryABI,
		bsc.CompressedBatchEntrySession{}, bsc.CompressedBatchEntryCallerSession{}, bsc.CompressedBatchEntryTransactorSession{}, bsc.CompressedBatchEntryRaw{}, bsc.CompressedBatchEntryCallerRaw{}, bsc.CompressedBatchEntryTransactorRaw{}},
	{"bsc.CompressedBatchProof", bsc.NewCompressedBatchProof, bsc.NewCompressedBatchProofCaller, bsc.NewCompressedBatchProofTransactor, bsc.NewCompressedBatchProofFilterer, bsc.DeployCompressedBatchProof, bsc.CompressedBatchProofBin, bsc.CompressedBatchProofABI,
		bsc.CompressedBatchProofSession{}, bsc.CompressedBatchProofCallerSession{}, bsc.CompressedBatchProofTransactorSession{}, bsc.CompressedBatchProofRaw{}, bsc.CompressedBatchProofCallerRaw{}, bsc.CompressedBatchProofTransactorRaw{}},
	{"bsc.CompressedExistenceProof", bsc.NewCompressedExistenceProof, bsc.NewCompressedExistenceProofCaller, bsc.NewCompressedExistenceProofTransactor, bsc.NewCompressedExistenceProofFilterer, bsc.DeployCompressedExistenceProof, bsc.CompressedExistenceProofBin, bsc.CompressedExistenceProofABI,
		bsc.CompressedExistenceProofSession{}, bsc.CompressedExistenceProofCallerSession{}, bsc.CompressedExistenceProofTransactorSession{}, bsc.CompressedExistenceProofRaw{}, bsc.CompressedExistenceProofCallerRaw{}, bsc.CompressedExistenceProofTransactorRaw{}},
	{"bsc.CompressedNonExistenceProof", bsc.NewCompressedNonExistenceProof, bsc.NewCompressedNonExistenceProofCaller, bsc.NewCompressedNonExistenceProofTransactor, bsc.NewCompressedNonExistenceProofFilterer, bsc.DeployCompressedNonExistenceProof, bsc.CompressedNonExistenceProofBin, bsc.CompressedNonExistenceProofABI,
		bsc.CompressedNonExistenceProofSession{}, bsc.CompressedNonExistenceProofCallerSession{}, bsc.CompressedNonExistenceProofTransactorSession{}, bsc.CompressedNonExistenceProofRaw{}, bsc.CompressedNonExistenceProofCallerRaw{}, bsc.CompressedNonExistenceProofTransactorRaw{}},
	{"bsc.Consensus", bsc.NewConsensus, bsc.NewConsensusCaller, bsc.NewConsensusTransactor, bsc.NewConsensusFilterer, bsc.DeployConsensus, bsc.ConsensusBin, bsc.ConsensusABI,
		bsc.ConsensusSession{}, bsc.ConsensusCallerSession{}, bsc.ConsensusTransactorSession{}, bsc.ConsensusRaw{}, bsc.ConsensusCallerRaw{}, bsc.ConsensusTransactorRaw{}},
	{"bsc.ConsensusState", bsc.NewConsensusState, bsc.NewConsensusStateCaller, bsc.NewConsensusStateTransactor, bsc.NewConsensusStateFilterer, bsc.DeployConsensusState, bsc.ConsensusStateBin, bsc.ConsensusStateABI,
		bsc.ConsensusStateSession{}, bsc.ConsensusStateCallerSession{}, bsc.ConsensusStateTransactorSession{}, bsc.ConsensusStateRaw{}, bsc.ConsensusStateCallerRaw{}, bsc.ConsensusStateTransactorRaw{}},
	{"bsc.Context", bsc.NewContext, bsc.NewContextCaller, bsc.NewContextTransactor, bsc.NewContextFilterer, nil, "", bsc.ContextABI,
		bsc.ContextSession{}, bsc.ContextCallerSession{}, bsc.ContextTransactorSession{}, bsc.ContextRaw{}, bsc.ContextCallerRaw{}, bsc.ContextTransactorRaw{}},
	{"bsc.CrossChain", bsc.NewCrossChain, bsc.NewCrossChainCaller, bsc.NewCrossChainTransactor, bsc.NewCrossChainFilterer, bsc.DeployCrossChain, bsc.CrossChainBin, bsc.CrossChainABI,
		bsc.CrossChainSession{}, bsc.CrossChainCallerSession{}, bsc.CrossChainTransactorSession{}, bsc.CrossChainRaw{}, bsc.CrossChainCallerRaw{}, bsc.CrossChainTransactorRaw{}},
	{"bsc.Duration", bsc.NewDuration, bsc.NewDurationCaller, bsc.NewDurationTransactor, bsc.NewDurationFilterer, bsc.DeployDuration, bsc.DurationBin, bsc.DurationABI,
		bsc.DurationSession{}, bsc.DurationCallerSession{}, bsc.DurationTransactorSession{}, bsc.DurationRaw{}, bsc.DurationCallerRaw{}, bsc.DurationTransactorRaw{}},
	{"bsc.ECDSA", bsc.NewECDSA, bsc.NewECDSACaller, bsc.NewECDSATransactor, bsc.NewECDSAFilterer, bsc.DeployECDSA, bsc.ECDSABin, bsc.ECDSAABI,
		bsc.ECDSASession{}, bsc.ECDSACallerSession{}, bsc.ECDSATransactorSession{}, bsc.ECDSARaw{}, bsc.ECDSACallerRaw{}, bsc.ECDSATransactorRaw{}},
	{"bsc.Ed25519Verifier", bsc.NewEd25519Verifier, bsc.NewEd25519VerifierCaller, bsc.NewEd25519VerifierTransactor, bsc.NewEd25519VerifierFilterer, bsc.DeployEd25519Verifier, bsc.Ed25519VerifierBin, bsc.Ed25519VerifierABI,
		bsc.Ed25519VerifierSession{}, bsc.Ed25519VerifierCallerSession{}, bsc.Ed25519VerifierTransactorSession{}, bsc.Ed25519VerifierRaw{}, bsc.Ed25519VerifierCallerRaw{}, bsc.Ed25519VerifierTransactorRaw{}},
	{"bsc.Encoder", bsc.NewEncoder, bsc.NewEncoderCaller, bsc.NewEncoderTransactor, bsc.NewEncoderFilterer, bsc.DeployEncoder, bsc.EncoderBin, bsc.EncoderABI,
		bsc.EncoderSession{}, bsc.EncoderCallerSession{}, bsc.EncoderTransactorSession{}, bsc.EncoderRaw{}, bsc.EncoderCallerRaw{}, bsc.EncoderTransactorRaw{}},
	{"bsc.ExistenceProof", bsc.NewExistenceProof, bsc.NewExistenceProofCaller, bsc.NewExistenceProofTransactor, bsc.NewExistenceProofFilterer, bsc.DeployExistenceProof, bsc.ExistenceProofBin, bsc.ExistenceProofABI,
		bsc.ExistenceProofSession{}, bsc.ExistenceProofCallerSession{}, bsc.ExistenceProofTransactorSession{}, bsc.ExistenceProofRaw{}, bsc.ExistenceProofCallerRaw{}, bsc.ExistenceProofTransactorRaw{}},
	{"bsc.Fraction", bsc.NewFraction, bsc.NewFractionCaller, bsc.NewFractionTransactor, bsc.NewFractionFilterer, bsc.DeployFraction, bsc.FractionBin, bsc.FractionABI,
		bsc.FractionSession{}, bsc.FractionCallerSession{}, bsc.FractionTransactorSession{}, bsc.FractionRaw{}, bsc.FractionCallerRaw{}, bsc.FractionTransactorRaw{}},
	{"bsc.GoogleProtobufAny", bsc.NewGoogleProtobufAny, bsc.NewGoogleProtobufAnyCaller, bsc.NewGoogleProtobufAnyTransactor, bsc.NewGoogleProtobufAnyFilterer, bsc.DeployGoogleProtobufAny, bsc.GoogleProtobufAnyBin, bsc.GoogleProtobufAnyABI,
		bsc.GoogleProtobufAnySession{}, bsc.GoogleProtobufAnyCallerSession{}, bsc.GoogleProtobufAnyTransactorSession{}, bsc.GoogleProtobufAnyRaw{}, bsc.GoogleProtobufAnyCallerRaw{}, bsc.GoogleProtobufAnyTransactorRaw{}},
	{"bsc.IApplication", bsc.NewIApplication, bsc.NewIApplicationCaller, bsc.NewIApplicationTransactor, bsc.NewIApplicationFilterer, nil, "", bsc.IApplicationABI,
		bsc.IApplicationSession{}, bsc.IApplicationCallerSession{}, bsc.IApplicationTransactorSession{}, bsc.IApplicationRaw{}, bsc.IApplicationCallerRaw{}, bsc.IApplicationTransactorRaw{}},
	{"bsc.IBSCValidatorSet", bsc.NewIBSCValidatorSet, bsc.NewIBSCValidatorSetCaller, bsc.NewIBSCValidatorSetTransactor, bsc.NewIBSCValidatorSetFilterer, nil, "", bsc.IBSCValidatorSetABI,
		bsc.IBSCValidatorSetSession{}, bsc.IBSCValidatorSetCallerSession{}, bsc.IBSCValidatorSetTransactorSession{}, bsc.IBSCValidatorSetRaw{}, bsc.IBSCValidatorSetCallerRaw{}, bsc.IBSCValidatorSetTransactorRaw{}},
	{"bsc.ICrossChain", bsc.NewICrossChain, bsc.NewICrossChainCaller, bsc.NewICrossChainTransactor, bsc.NewICrossChainFilterer, nil, "", bsc.ICrossChainABI,
		bsc.ICrossChainSession{}, bsc.ICrossChainCallerSession{}, bsc.ICrossChainTransactorSession{}, bsc.ICrossChainRaw{}, bsc.ICrossChainCallerRaw{}, bsc.ICrossChainTransactorRaw{}},
	{"bsc.IEthereumLightClient", bsc.NewIEthereumLightClient, bsc.NewIEthereumLightClientCaller, bsc.NewIEthereumLightClientTransactor, bsc.NewIEthereumLightClientFilterer, nil, "", bsc.IEthereumLightClientABI,
		bsc.IEthereumLightClientSession{}, bsc.IEthereumLightClientCallerSession{}, bsc.IEthereumLightClientTransactorSession{}, bsc.IEthereumLightClientRaw{}, bsc.IEthereumLightClientCallerRaw{}, bsc.IEthereumLightClientTransactorRaw{}},
	{"bsc.ITendermintLightClient", bsc.NewITendermintLightClient, bsc.NewITendermintLightClientCaller, bsc.NewITendermintLightClientTransactor, bsc.NewITendermintLightClientFilterer, nil, "", bsc.ITendermintLightClientABI,
		bsc.ITendermintLightClientSession{}, bsc.ITendermintLightClientCallerSession{}, bsc.ITendermintLightClientTransactorSession{}, bsc.ITendermintLightClientRaw{}, bsc.ITendermintLightClientCallerRaw{}, bsc.ITendermintLightClientTransactorRaw{}},
	{"bsc.Ics23", bsc.NewIcs23, bsc.NewIcs23Caller, bsc.NewIcs23Transactor, bsc.NewIcs23Filterer, bsc.DeployIcs23, bsc.Ics23Bin, bsc.Ics23ABI,
		bsc.Ics23Session{}, bsc.Ics23CallerSession{}, bsc.Ics23TransactorSession{}, bsc.Ics23Raw{}, bsc.Ics23CallerRaw{}, bsc.Ics23TransactorRaw{}},
	{"bsc.Initializable", bsc.NewInitializable, bsc.NewInitializableCaller, bsc.NewInitializableTransactor, bsc.NewInitializableFilterer, nil, "", bsc.InitializableABI,
		bsc.InitializableSession{}, bsc.InitializableCallerSession{}, bsc.InitializableTransactorSession{}, bsc.InitializableRaw{}, bsc.InitializableCallerRaw{}, bsc.InitializableTransactorRaw{}},
	{"bsc.InnerOp", bsc.NewInnerOp, bsc.NewInnerOpCaller, bsc.NewInnerOpTransactor, bsc.NewInnerOpFilterer, bsc.DeployInnerOp, bsc.InnerOpBin, bsc.InnerOpABI,
		bsc.InnerOpSession{}, bsc.InnerOpCallerSession{}, bsc.InnerOpTransactorSession{}, bsc.InnerOpRaw{}, bsc.InnerOpCallerRaw{}, bsc.InnerOpTransactorRaw{}},
	{"bsc.InnerSpec", bsc.NewInnerSpec, bsc.NewInnerSpecCaller, bsc.NewInnerSpecTransactor, bsc.NewInnerSpecFilterer, bsc.DeployInnerSpec, bsc.InnerSpecBin, bsc.InnerSpecABI,
		bsc.InnerSpecSession{}, bsc.InnerSpecCallerSession{}, bsc.InnerSpecTransactorSession{}, bsc.InnerSpecRaw{}, bsc.InnerSpecCallerRaw{}, bsc.InnerSpecTransactorRaw{}},
	{"bsc.LeafOp", bsc.NewLeafOp, bsc.NewLeafOpCaller, bsc.NewLeafOpTransactor, bsc.NewLeafOpFilterer, bsc.DeployLeafOp, bsc.LeafOpBin, bsc.LeafOpABI,
		bsc.LeafOpSession{}, bsc.LeafOpCallerSession{}, bsc.LeafOpTransactorSession{}, bsc.LeafOpRaw{}, bsc.LeafOpCallerRaw{}, bsc.LeafOpTransactorRaw{}},
	{"bsc.LightHeader", bsc.NewLightHeader, bsc.NewLightHeaderCaller, bsc.NewLightHeaderTransactor, bsc.NewLightHeaderFilterer, bsc.DeployLightHeader, bsc.LightHeaderBin, bsc.LightHeaderABI,
		bsc.LightHeaderSession{}, bsc.LightHeaderCallerSession{}, bsc.LightHeaderTransactorSession{}, bsc.LightHeaderRaw{}, bsc.LightHeaderCallerRaw{}, bsc.LightHeaderTransactorRaw{}},
	{"bsc.Math", bsc.NewMath, bsc.NewMathCaller, bsc.NewMathTransactor, bsc.NewMathFilterer, bsc.DeployMath, bsc.MathBin, bsc.MathABI,
		bsc.MathSession{}, bsc.MathCallerSession{}, bsc.MathTransactorSession{}, bsc.MathRaw{}, bsc.MathCallerRaw{}, bsc.MathTransactorRaw{}},
	{"bsc.Memory", bsc.NewMemory, bsc.NewMemoryCaller, bsc.NewMemoryTransactor, bsc.NewMemoryFilterer, bsc.DeployMemory, bsc.MemoryBin, bsc.MemoryABI,
		bsc.MemorySession{}, bsc.MemoryCallerSession{}, bsc.MemoryTransactorSession{}, bsc.MemoryRaw{}, bsc.MemoryCallerRaw{}, bsc.MemoryTransactorRaw{}},
	{"bsc.MerkleRoot", bsc.NewMerkleRoot, bsc.NewMerkleRootCaller, bsc.NewMerkleRootTransactor, bsc.NewMerkleRootFilterer, bsc.DeployMerkleRoot, bsc.MerkleRootBin, bsc.MerkleRootABI,
		bsc.MerkleRootSession{}, bsc.MerkleRootCallerSession{}, bsc.MerkleRootTransactorSession{}, bsc.MerkleRootRaw{}, bsc.MerkleRootCallerRaw{}, bsc.MerkleRootTransactorRaw{}},
	{"bsc.MerkleTree", bsc.NewMerkleTree, bsc.NewMerkleTreeCaller, bsc.NewMerkleTreeTransactor, bsc.NewMerkleTreeFilterer, bsc.DeployMerkleTree, bsc.MerkleTreeBin, bsc.MerkleTreeABI,
		bsc.MerkleTreeSession{}, bsc.MerkleTreeCallerSession{}, bsc.MerkleTreeTransactorSession{}, bsc.MerkleTreeRaw{}, bsc.MerkleTreeCallerRaw{}, bsc.MerkleTreeTransactorRaw{}},
	{"bsc.NonExistenceProof", bsc.NewNonExistenceProof, bsc.NewNonExistenceProofCaller, bsc.NewNonExistenceProofTransactor, bsc.NewNonExistenceProofFilterer, bsc.DeployNonExistenceProof, bsc.NonExistenceProofBin, bsc.NonExistenceProofABI,
		bsc.NonExistenceProofSession{}, bsc.NonExistenceProofCallerSession{}, bsc.NonExistenceProofTransactorSession{}, bsc.NonExistenceProofRaw{}, bsc.NonExistenceProofCallerRaw{}, bsc.NonExistenceProofTransactorRaw{}},
	{"bsc.Ops", bsc.NewOps, bsc.NewOpsCaller, bsc.NewOpsTransactor, bsc.NewOpsFilterer, bsc.DeployOps, bsc.OpsBin, bsc.OpsABI,
		bsc.OpsSession{}, bsc.OpsCallerSession{}, bsc.OpsTransactorSession{}, bsc.OpsRaw{}, bsc.OpsCallerRaw{}, bsc.OpsTransactorRaw{}},
	{"bsc.Ownable", bsc.NewOwnable, bsc.NewOwnableCaller, bsc.NewOwnableTransactor, bsc.NewOwnableFilterer, nil, "", bsc.OwnableABI,
		bsc.OwnableSession{}, bsc.OwnableCallerSession{}, bsc.OwnableTransactorSession{}, bsc.OwnableRaw{}, bsc.OwnableCallerRaw{}, bsc.OwnableTransactorRaw{}},
	{"bsc.PROOFSPROTOGLOBALENUMS", bsc.NewPROOFSPROTOGLOBALENUMS, bsc.NewPROOFSPROTOGLOBALENUMSCaller, bsc.NewPROOFSPROTOGLOBALENUMSTransactor, bsc.NewPROOFSPROTOGLOBALENUMSFilterer, bsc.DeployPROOFSPROTOGLOBALENUMS, bsc.PROOFSPROTOGLOBALENUMSBin, bsc.PROOFSPROTOGLOBALENUMSABI,
		bsc.PROOFSPROTOGLOBALENUMSSession{}, bsc.PROOFSPROTOGLOBALENUMSCallerSession{}, bsc.PROOFSPROTOGLOBALENUMSTransactorSession{}, bsc.PROOFSPROTOGLOBALENUMSRaw{}, bsc.PROOFSPROTOGLOBALENUMSCallerRaw{}, bsc.PROOFSPROTOGLOBALENUMSTransactorRaw{}},
	{"bsc.Pairing", bsc.NewPairing, bsc.NewPairingCaller, bsc.NewPairingTransactor, bsc.NewPairingFilterer, bsc.DeployPairing, bsc.PairingBin, bsc.PairingABI,
		bsc.PairingSession{}, bsc.PairingCallerSession{}, bsc.PairingTransactorSession{}, bsc.PairingRaw{}, bsc.PairingCallerRaw{}, bsc.PairingTransactorRaw{}},
	{"bsc.PartSetHeader", bsc.NewPartSetHeader, bsc.NewPartSetHeaderCaller, bsc.NewPartSetHeaderTransactor, bsc.NewPartSetHeaderFilterer, bsc.DeployPartSetHeader, bsc.PartSetHeaderBin, bsc.PartSetHeaderABI,
		bsc.PartSetHeaderSession{}, bsc.PartSetHeaderCallerSession{}, bsc.PartSetHeaderTransactorSession{}, bsc.PartSetHeaderRaw{}, bsc.PartSetHeaderCallerRaw{}, bsc.PartSetHeaderTransactorRaw{}},
	{"bsc.PoALightClient", bsc.NewPoALightClient, bsc.NewPoALightClientCaller, bsc.NewPoALightClientTransactor, bsc.NewPoALightClientFilterer, bsc.DeployPoALightClient, bsc.PoALightClientBin, bsc.PoALightClientABI,
		bsc.PoALightClientSession{}, bsc.PoALightClientCallerSession{}, bsc.PoALightClientTransactorSession{}, bsc.PoALightClientRaw{}, bsc.PoALightClientCallerRaw{}, bsc.PoALightClientTransactorRaw{}},
	{"bsc.Proof", bsc.NewProof, bsc.NewProofCaller, bsc.NewProofTransactor, bsc.NewProofFilterer, bsc.DeployProof, bsc.ProofBin, bsc.ProofABI,
		bsc.ProofSession{}, bsc.ProofCallerSession{}, bsc.ProofTransactorSession{}, bsc.ProofRaw{}, bsc.ProofCallerRaw{}, bsc.ProofTransactorRaw{}},
	{"bsc.ProofSpec", bsc.NewProofSpec, bsc.NewProofSpecCaller, bsc.NewProofSpecTransactor, bsc.NewProofSpecFilterer, bsc.DeployProofSpec, bsc.ProofSpecBin, bsc.ProofSpecABI,
		bsc.ProofSpecSession{}, bsc.ProofSpecCallerSession{}, bsc.ProofSpecTransactorSession{}, bsc.ProofSpecRaw{}, bsc.ProofSpecCallerRaw{}, bsc.ProofSpecTransactorRaw{}},
	{"bsc.ProtoBufRuntime", bsc.NewProtoBufRuntime, bsc.NewProtoBufRuntimeCaller, bsc.NewProtoBufRuntimeTransactor, bsc.NewProtoBufRuntimeFilterer, bsc.DeployProtoBufRuntime, bsc.ProtoBufRuntimeBin, bsc.ProtoBufRuntimeABI,
		bsc.ProtoBufRuntimeSession{}, bsc.ProtoBufRuntimeCallerSession{}, bsc.ProtoBufRuntimeTransactorSession{}, bsc.ProtoBufRuntimeRaw{}, bsc.ProtoBufRuntimeCallerRaw{}, bsc.ProtoBufRuntimeTransactorRaw{}},
	{"bsc.PublicKey", bsc.NewPublicKey, bsc.NewPublicKeyCaller, bsc.NewPublicKeyTransactor, bsc.NewPublicKeyFilterer, bsc.DeployPublicKey, bsc.PublicKeyBin, bsc.PublicKeyABI,
		bsc.PublicKeySession{}, bsc.PublicKeyCallerSession{}, bsc.PublicKeyTransactorSession{}, bsc.PublicKeyRaw{}, bsc.PublicKeyCallerRaw{}, bsc.PublicKeyTransactorRaw{}},
	{"bsc.RLPDecode", bsc.NewRLPDecode, bsc.NewRLPDecodeCaller, bsc.NewRLPDecodeTransactor, bsc.NewRLPDecodeFilterer, bsc.DeployRLPDecode, bsc.RLPDecodeBin, bsc.RLPDecodeABI,
		bsc.RLPDecodeSession{}, bsc.RLPDecodeCallerSession{}, bsc.RLPDecodeTransactorSession{}, bsc.RLPDecodeRaw{}, bsc.RLPDecodeCallerRaw{}, bsc.RLPDecodeTransactorRaw{}},
	{"bsc.RLPEncode", bsc.NewRLPEncode, bsc.NewRLPEncodeCaller, bsc.NewRLPEncodeTransactor, bsc.NewRLPEncodeFilterer, bsc.DeployRLPEncode, bsc.RLPEncodeBin, bsc.RLPEncodeABI,
		bsc.RLPEncodeSession{}, bsc.RLPEncodeCallerSession{}, bsc.RLPEncodeTransactorSession{}, bsc.RLPEncodeRaw{}, bsc.RLPEncodeCallerRaw{}, bsc.RLPEncodeTransactorRaw{}},
	{"bsc.RLPWriter", bsc.NewRLPWriter, bsc.NewRLPWriterCaller, bsc.NewRLPWriterTransactor, bsc.NewRLPWriterFilterer, bsc.DeployRLPWriter, bsc.RLPWriterBin, bsc.RLPWriterABI,
		bsc.RLPWriterSession{}, bsc.RLPWriterCallerSession{}, bsc.RLPWriterTransactorSession{}, bsc.RLPWriterRaw{}, bsc.RLPWriterCallerRaw{}, bsc.RLPWriterTransactorRaw{}},
	{"bsc.SafeCast", bsc.NewSafeCast, bsc.NewSafeCastCaller, bsc.NewSafeCastTransactor, bsc.NewSafeCastFilterer, bsc.DeploySafeCast, bsc.SafeCastBin, bsc.SafeCastABI,
		bsc.SafeCastSession{}, bsc.SafeCastCallerSession{}, bsc.SafeCastTransactorSession{}, bsc.SafeCastRaw{}, bsc.SafeCastCallerRaw{}, bsc.SafeCastTransactorRaw{}},
	{"bsc.SignedHeader", bsc.NewSignedHeader, bsc.NewSignedHeaderCaller, bsc.NewSignedHeaderTransactor, bsc.NewSignedHeaderFilterer, bsc.DeploySignedHeader, bsc.SignedHeaderBin, bsc.SignedHeaderABI,
		bsc.SignedHeaderSession{}, bsc.SignedHeaderCallerSession{}, bsc.SignedHeaderTransactorSession{}, bsc.SignedHeaderRaw{}, bsc.SignedHeaderCallerRaw{}, bsc.SignedHeaderTransactorRaw{}},
	{"bsc.SimpleValidator", bsc.NewSimpleValidator, bsc.NewSimpleValidatorCaller, bsc.NewSimpleValidatorTransactor, bsc.NewSimpleValidatorFilterer, bsc.DeploySimpleValidator, bsc.SimpleValidatorBin, bsc.SimpleValidatorABI,
		bsc.SimpleValidatorSession{}, bsc.SimpleValidatorCallerSession{}, bsc.SimpleValidatorTransactorSession{}, bsc.SimpleValidatorRaw{}, bsc.SimpleValidatorCallerRaw{}, bsc.SimpleValidatorTransactorRaw{}},
	{"bsc.System", bsc.NewSystem, bsc.NewSystemCaller, bsc.NewSystemTransactor, bsc.NewSystemFilterer, bsc.DeploySystem, bsc.SystemBin, bsc.SystemABI,
		bsc.SystemSession{}, bsc.SystemCallerSession{}, bsc.SystemTransactorSession{}, bsc.SystemRaw{}, bsc.SystemCallerRaw{}, bsc.SystemTransactorRaw{}},
	{"bsc.TENDERMINTLIGHTPROTOGLOBALENUMS", bsc.NewTENDERMINTLIGHTPROTOGLOBALENUMS, bsc.NewTENDERMINTLIGHTPROTOGLOBALENUMSCaller, bsc.NewTENDERMINTLIGHTPROTOGLOBALENUMSTransactor, bsc.NewTENDERMINTLIGHTPROTOGLOBALENUMSFilterer, bsc.DeployTENDERMINTLIGHTPROTOGLOBALENUMS, bsc.TENDERMINTLIGHTPROTOGLOBALENUMSBin, bsc.TENDERMINTLIGHTPROTOGLOBALENUMSABI,
		bsc.TENDERMINTLIGHTPROTOGLOBALENUMSSession{}, bsc.TENDERMINTLIGHTPROTOGLOBALENUMSCallerSession{}, bsc.TENDERMINTLIGHTPROTOGLOBALENUMSTransactorSession{}, bsc.TENDERMINTLIGHTPROTOGLOBALENUMSRaw{}, bsc.TENDERMINTLIGHTPROTOGLOBALENUMSCallerRaw{}, bsc.TENDERMINTLIGHTPROTOGLOBALENUMSTransactorRaw{}},
	{"bsc.Tendermint", bsc.NewTendermint, bsc.NewTendermintCaller, bsc.NewTendermintTransactor, bsc.NewTendermintFilterer, bsc.DeployTendermint, bsc.TendermintBin, bsc.TendermintABI,
		bsc.TendermintSession{}, bsc.TendermintCallerSession{}, bsc.TendermintTransactorSession{}, bsc.TendermintRaw{}, bsc.TendermintCallerRaw{}, bsc.TendermintTransactorRaw{}},
	{"bsc.TendermintHelper", bsc.NewTendermintHelper, bsc.NewTendermintHelperCaller, bsc.NewTendermintHelperTransactor, bsc.NewTendermintHelperFilterer, bsc.DeployTendermintHelper, bsc.TendermintHelperBin, bsc.TendermintHelperABI,
		bsc.TendermintHelperSession{}, bsc.TendermintHelperCallerSession{}, bsc.TendermintHelperTransactorSession{}, bsc.TendermintHelperRaw{}, bsc.TendermintHelperCallerRaw{}, bsc.TendermintHelperTransactorRaw{}},
	{"bsc.TendermintLightClient", bsc.NewTendermintLightClient, bsc.NewTendermintLightClientCaller, bsc.NewTendermintLightClientTransactor, bsc.NewTendermintLightClientFilterer, bsc.DeployTendermintLightClient, bsc.TendermintLightClientBin, bsc.TendermintLightClientABI,
		bsc.TendermintLightClientSession{}, bsc.TendermintLightClientCallerSession{}, bsc.TendermintLightClientTransactorSession{}, bsc.TendermintLightClientRaw{}, bsc.TendermintLightClientCallerRaw{}, bsc.TendermintLightClientTransactorRaw{}},
	{"bsc.Timestamp", bsc.NewTimestamp, bsc.NewTimestampCaller, bsc.NewTimestampTransactor, bsc.NewTimestampFilterer, bsc.DeployTimestamp, bsc.TimestampBin, bsc.TimestampABI,
		bsc.TimestampSession{}, bsc.TimestampCallerSession{}, bsc.TimestampTransactorSession{}, bsc.TimestampRaw{}, bsc.TimestampCallerRaw{}, bsc.TimestampTransactorRaw{}},
	{"bsc.TmHeader", bsc.NewTmHeader, bsc.NewTmHeaderCaller, bsc.NewTmHeaderTransactor, bsc.NewTmHeaderFilterer, bsc.DeployTmHeader, bsc.TmHeaderBin, bsc.TmHeaderABI,
		bsc.TmHeaderSession{}, bsc.TmHeaderCallerSession{}, bsc.TmHeaderTransactorSession{}, bsc.TmHeaderRaw{}, bsc.TmHeaderCallerRaw{}, bsc.TmHeaderTransactorRaw{}},
	{"bsc.Validator", bsc.NewValidator, bsc.NewValidatorCaller, bsc.NewValidatorTransactor, bsc.NewValidatorFilterer, bsc.DeployValidator, bsc.ValidatorBin, bsc.ValidatorABI,
		bsc.ValidatorSession{}, bsc.ValidatorCallerSession{}, bsc.ValidatorTransactorSession{}, bsc.ValidatorRaw{}, bsc.ValidatorCallerRaw{}, bsc.ValidatorTransactorRaw{}},
	{"bsc.ValidatorSet", bsc.NewValidatorSet, bsc.NewValidatorSetCaller, bsc.NewValidatorSetTransactor, bsc.NewValidatorSetFilterer, bsc.DeployValidatorSet, bsc.ValidatorSetBin, bsc.ValidatorSetABI,
		bsc.ValidatorSetSession{}, bsc.ValidatorSetCallerSession{}, bsc.ValidatorSetTransactorSession{}, bsc.ValidatorSetRaw{}, bsc.ValidatorSetCallerRaw{}, bsc.ValidatorSetTransactorRaw{}},
	{"bsc.Vote", bsc.NewVote, bsc.NewVoteCaller, bsc.NewVoteTransactor, bsc.NewVoteFilterer, bsc.DeployVote, bsc.VoteBin, bsc.VoteABI,
		bsc.VoteSession{}, bsc.VoteCallerSession{}, bsc.VoteTransactorSession{}, bsc.VoteRaw{}, bsc.VoteCallerRaw{}, bsc.VoteTransactorRaw{}},
	{"eth.Address", eth.NewAddress, eth.NewAddressCaller, eth.NewAddressTransactor, eth.NewAddressFilterer, eth.DeployAddress, eth.AddressBin, eth.AddressABI,
		eth.AddressSession{}, eth.AddressCallerSession{}, eth.AddressTransactorSession{}, eth.AddressRaw{}, eth.AddressCallerRaw{}, eth.AddressTransactorRaw{}},
	{"eth.AnchorBlocks", eth.NewAnchorBlocks, eth.NewAnchorBlocksCaller, eth.NewAnchorBlocksTransactor, eth.NewAnchorBlocksFilterer, eth.DeployAnchorBlocks, eth.AnchorBlocksBin, eth.AnchorBlocksABI,
		eth.AnchorBlocksSession{}, eth.AnchorBlocksCallerSession{}, eth.AnchorBlocksTransactorSession{}, eth.AnchorBlocksRaw{}, eth.AnchorBlocksCallerRaw{}, eth.AnchorBlocksTransactorRaw{}},
	{"eth.BalanceDeltaLibrary", eth.NewBalanceDeltaLibrary, eth.NewBalanceDeltaLibraryCaller, eth.NewBalanceDeltaLibraryTransactor, eth.NewBalanceDeltaLibraryFilterer, eth.DeployBalanceDeltaLibrary, eth.BalanceDeltaLibraryBin, eth.BalanceDeltaLibraryABI,
		eth.BalanceDeltaLibrarySession{}, eth.BalanceDeltaLibraryCallerSession{}, eth.BalanceDeltaLibraryTransactorSession{}, eth.BalanceDeltaLibraryRaw{}, eth.BalanceDeltaLibraryCallerRaw{}, eth.BalanceDeltaLibraryTransactorRaw{}},
	{"eth.BaseFactory", eth.NewBaseFactory, eth.NewBaseFactoryCaller, eth.NewBaseFactoryTransactor, eth.NewBaseFactoryFilterer, nil, "", eth.BaseFactoryABI,
		eth.BaseFactorySession{}, eth.BaseFactoryCallerSession{}, eth.BaseFactoryTransactorSession{}, eth.BaseFactoryRaw{}, eth.BaseFactoryCallerRaw{}, eth.BaseFactoryTransactorRaw{}},
	{"eth.BaseHook", eth.NewBaseHook, eth.NewBaseHookCaller, eth.NewBaseHookTransactor, eth.NewBaseHookFilterer, nil, "", eth.BaseHookABI,
		eth.BaseHookSession{}, eth.BaseHookCallerSession{}, eth.BaseHookTransactorSession{}, eth.BaseHookRaw{}, eth.BaseHookCallerRaw{}, eth.BaseHookTransactorRaw{}},
	{"eth.BeaconVerifier", eth.NewBeaconVerifier, eth.NewBeaconVerifierCaller, eth.NewBeaconVerifierTransactor, eth.NewBeaconVerifierFilterer, eth.DeployBeaconVerifier, eth.BeaconVerifierBin, eth.BeaconVerifierABI,
		eth.BeaconVerifierSession{}, eth.BeaconVerifierCallerSession{}, eth.BeaconVerifierTransactorSession{}, eth.BeaconVerifierRaw{}, eth.BeaconVerifierCallerRaw{}, eth.BeaconVerifierTransactorRaw{}},
	{"eth.BitMath", eth.NewBitMath, eth.NewBitMathCaller, eth.NewBitMathTransactor, eth.NewBitMathFilterer, eth.DeployBitMath, eth.BitMathBin, eth.BitMathABI,
		eth.BitMathSession{}, eth.BitMathCallerSession{}, eth.BitMathTransactorSession{}, eth.BitMathRaw{}, eth.BitMathCallerRaw{}, eth.BitMathTransactorRaw{}},
	{"eth.BlockChunks", eth.NewBlockChunks, eth.NewBlockChunksCaller, eth.NewBlockChunksTransactor, eth.NewBlockChunksFilterer, eth.DeployBlockChunks, eth.BlockChunksBin, eth.BlockChunksABI,
		eth.BlockChunksSession{}, eth.BlockChunksCallerSession{}, eth.BlockChunksTransactorSession{}, eth.BlockChunksRaw{}, eth.BlockChunksCallerRaw{}, eth.BlockChunksTransactorRaw{}},
	{"eth.BlsSigVerifier", eth.NewBlsSigVerifier, eth.NewBlsSigVerifierCaller, eth.NewBlsSigVerifierTransactor, eth.NewBlsSigVerifierFilterer, eth.DeployBlsSigVerifier, eth.BlsSigVerifierBin, eth.BlsSigVerifierABI,
		eth.BlsSigVerifierSession{}, eth.BlsSigVerifierCallerSession{}, eth.BlsSigVerifierTransactorSession{}, eth.BlsSigVerifierRaw{}, eth.BlsSigVerifierCallerRaw{}, eth.BlsSigVerifierTransactorRaw{}},
	{"eth.Brevis", eth.NewBrevis, eth.NewBrevisCaller, eth.NewBrevisTransactor, eth.NewBrevisFilterer, eth.DeployBrevis, eth.BrevisBin, eth.BrevisABI,
		eth.BrevisSession{}, eth.BrevisCallerSession{}, eth.BrevisTransactorSession{}, eth.BrevisRaw{}, eth.BrevisCallerRaw{}, eth.BrevisTransactorRaw{}},
	{"eth.BrevisAccess", eth.NewBrevisAccess, eth.NewBrevisAccessCaller, eth.NewBrevisAccessTransactor, eth.NewBrevisAccessFilterer, nil, "", eth.BrevisAccessABI,
		eth.BrevisAccessSession{}, eth.BrevisAccessCallerSession{}, eth.BrevisAccessTransactorSession{}, eth.BrevisAccessRaw{}, eth.BrevisAccessCallerRaw{}, eth.BrevisAccessTransactorRaw{}},
	{"eth.BrevisAggProof", eth.NewBrevisAggProof, eth.NewBrevisAggProofCaller, eth.NewBrevisAggProofTransactor, eth.NewBrevisAggProofFilterer, eth.DeployBrevisAggProof, eth.BrevisAggProofBin, eth.BrevisAggProofABI,
		eth.BrevisAggProofSession{}, eth.BrevisAggProofCallerSession{}, eth.BrevisAggProofTransactorSession{}, eth.BrevisAggProofRaw{}, eth.BrevisAggProofCallerRaw{}, eth.BrevisAggProofTransactorRaw{}},
	{"eth.BrevisApp", eth.NewBrevisApp, eth.NewBrevisAppCaller, eth.NewBrevisAppTransactor, eth.NewBrevisAppFilterer, nil, "", eth.BrevisAppABI,
		eth.BrevisAppSession{}, eth.BrevisAppCallerSession{}, eth.BrevisAppTransactorSession{}, eth.BrevisAppRaw{}, eth.BrevisAppCallerRaw{}, eth.BrevisAppTransactorRaw{}},
	{"eth.BrevisDispute", eth.NewBrevisDispute, eth.NewBrevisDisputeCaller, eth.NewBrevisDisputeTransactor, eth.NewBrevisDisputeFilterer, eth.DeployBrevisDispute, eth.BrevisDisputeBin, eth.BrevisDisputeABI,
		eth.BrevisDisputeSession{}, eth.BrevisDisputeCallerSession{}, eth.BrevisDisputeTransactorSession{}, eth.BrevisDisputeRaw{}, eth.BrevisDisputeCallerRaw{}, eth.BrevisDisputeTransactorRaw{}},
	{"eth.BrevisProof", eth.NewBrevisProof, eth.NewBrevisProofCaller, eth.NewBrevisProofTransactor, eth.NewBrevisProofFilterer, eth.DeployBrevisProof, eth.BrevisProofBin, eth.BrevisProofABI,
		eth.BrevisProofSession{}, eth.BrevisProofCallerSession{}, eth.BrevisProofTransactorSession{}, eth.BrevisProofRaw{}, eth.BrevisProofCallerRaw{}, eth.BrevisProofTransactorRaw{}},
	{"eth.BrevisRequest", eth.NewBrevisRequest, eth.NewBrevisRequestCaller, eth.NewBrevisRequestTransactor, eth.NewBrevisRequestFilterer, eth.DeployBrevisRequest, eth.BrevisRequestBin, eth.BrevisRequestABI,
		eth.BrevisRequestSession{}, eth.BrevisRequestCallerSession{}, eth.BrevisRequestTransactorSession{}, eth.BrevisRequestRaw{}, eth.BrevisRequestCallerRaw{}, eth.BrevisRequestTransactorRaw{}},
	{"eth.BrevisZkApp", eth.NewBrevisZkApp, eth.NewBrevisZkAppCaller, eth.NewBrevisZkAppTransactor, eth.NewBrevisZkAppFilterer, nil, "", eth.BrevisZkAppABI,
		eth.BrevisZkAppSession{}, eth.BrevisZkAppCallerSession{}, eth.BrevisZkAppTransactorSession{}, eth.BrevisZkAppRaw{}, eth.BrevisZkAppCallerRaw{}, eth.BrevisZkAppTransactorRaw{}},
	{"eth.CommitteeRootMappingVerifier", eth.NewCommitteeRootMappingVerifier, eth.NewCommitteeRootMappingVerifierCaller, eth.NewCommitteeRootMappingVerifierTransactor, eth.NewCommitteeRootMappingVerifierFilterer, eth.DeployCommitteeRootMappingVerifier, eth.CommitteeRootMappingVerifierBin, eth.CommitteeRootMappingVerifierABI,
		eth.CommitteeRootMappingVerifierSession{}, eth.CommitteeRootMappingVerifierCallerSession{}, eth.CommitteeRootMappingVerifierTransactorSession{}, eth.CommitteeRootMappingVerifierRaw{}, eth.CommitteeRootMappingVerifierCallerRaw{}, eth.CommitteeRootMappingVerifierTransactorRaw{}},
	{"eth.Common", eth.NewCommon, eth.NewCommonCaller, eth.NewCommonTransactor, eth.NewCommonFilterer, eth.DeployCommon, eth.CommonBin, eth.CommonABI,
		eth.CommonSession{}, eth.CommonCallerSession{}, eth.CommonTransactorSession{}, eth.CommonRaw{}, eth.CommonCallerRaw{}, eth.CommonTransactorRaw{}},
	{"eth.Context", eth.NewContext, eth.NewContextCaller, eth.NewContextTransactor, eth.NewContextFilterer, nil, "", eth.ContextABI,
		eth.ContextSession{}, eth.ContextCallerSession{}, eth.ContextTransactorSession{}, eth.ContextRaw{}, eth.ContextCallerRaw{}, eth.ContextTransactorRaw{}},
	{"eth.CurrencyLibrary", eth.NewCurrencyLibrary, eth.NewCurrencyLibraryCaller, eth.NewCurrencyLibraryTransactor, eth.NewCurrencyLibraryFilterer, eth.DeployCurrencyLibrary, eth.CurrencyLibraryBin, eth.CurrencyLibraryABI,
		eth.CurrencyLibrarySession{}, eth.CurrencyLibraryCallerSession{}, eth.CurrencyLibraryTransactorSession{}, eth.CurrencyLibraryRaw{}, eth.CurrencyLibraryCallerRaw{}, eth.CurrencyLibraryTransactorRaw{}},
	{"eth.ERC20", eth.NewERC20, eth.NewERC20Caller, eth.NewERC20Transactor, eth.NewERC20Filterer, eth.DeployERC20, eth.ERC20Bin, eth.ERC20ABI,
		eth.ERC20Session{}, eth.ERC20CallerSession{}, eth.ERC20TransactorSession{}, eth.ERC20Raw{}, eth.ERC20CallerRaw{}, eth.ERC20TransactorRaw{}},
	{"eth.ERC20Burnable", eth.NewERC20Burnable, eth.NewERC20BurnableCaller, eth.NewERC20BurnableTransactor, eth.NewERC20BurnableFilterer, nil, "", eth.ERC20BurnableABI,
		eth.ERC20BurnableSession{}, eth.ERC20BurnableCallerSession{}, eth.ERC20BurnableTransactorSession{}, eth.ERC20BurnableRaw{}, eth.ERC20BurnableCallerRaw{}, eth.ERC20BurnableTransactorRaw{}},
	{"eth.EthereumLightClient", eth.NewEthereumLightClient, eth.NewEthereumLightClientCaller, eth.NewEthereumLightClientTransactor, eth.NewEthereumLightClientFilterer, eth.DeployEthereumLightClient, eth.EthereumLightClientBin, eth.EthereumLightClientABI,
		eth.EthereumLightClientSession{}, eth.EthereumLightClientCallerSession{}, eth.EthereumLightClientTransactorSession{}, eth.EthereumLightClientRaw{}, eth.EthereumLightClientCallerRaw{}, eth.EthereumLightClientTransactorRaw{}},
	{"eth.FeeLibrary", eth.NewFeeLibrary, eth.NewFeeLibraryCaller, eth.NewFeeLibraryTransactor, eth.NewFeeLibraryFilterer, eth.DeployFeeLibrary, eth.FeeLibraryBin, eth.FeeLibraryABI,
		eth.FeeLibrarySession{}, eth.FeeLibraryCallerSession{}, eth.FeeLibraryTransactorSession{}, eth.FeeLibraryRaw{}, eth.FeeLibraryCallerRaw{}, eth.FeeLibraryTransactorRaw{}},
	{"eth.FeeVault", eth.NewFeeVault, eth.NewFeeVaultCaller, eth.NewFeeVaultTransactor, eth.NewFeeVaultFilterer, eth.DeployFeeVault, eth.FeeVaultBin, eth.FeeVaultABI,
		eth.FeeVaultSession{}, eth.FeeVaultCallerSession{}, eth.FeeVaultTransactorSession{}, eth.FeeVaultRaw{}, eth.FeeVaultCallerRaw{}, eth.FeeVaultTransactorRaw{}},
	{"eth.FixedPoint128", eth.NewFixedPoint128, eth.NewFixedPoint128Caller, eth.NewFixedPoint128Transactor, eth.NewFixedPoint128Filterer, eth.DeployFixedPoint128, eth.FixedPoint128Bin, eth.FixedPoint128ABI,
		eth.FixedPoint128Session{}, eth.FixedPoint128CallerSession{}, eth.FixedPoint128TransactorSession{}, eth.FixedPoint128Raw{}, eth.FixedPoint128CallerRaw{}, eth.FixedPoint128TransactorRaw{}},
	{"eth.FixedPoint96", eth.NewFixedPoint96, eth.NewFixedPoint96Caller, eth.NewFixedPoint96Transactor, eth.NewFixedPoint96Filterer, eth.DeployFixedPoint96, eth.FixedPoint96Bin, eth.FixedPoint96ABI,
		eth.FixedPoint96Session{}, eth.FixedPoint96CallerSession{}, eth.FixedPoint96TransactorSession{}, eth.FixedPoint96Raw{}, eth.FixedPoint96CallerRaw{}, eth.FixedPoint96TransactorRaw{}},
	{"eth.FullMath", eth.NewFullMath, eth.NewFullMathCaller, eth.NewFullMathTransactor, eth.NewFullMathFilterer, eth.DeployFullMath, eth.FullMathBin, eth.FullMathABI,
		eth.FullMathSession{}, eth.FullMathCallerSession{}, eth.FullMathTransactorSession{}, eth.FullMathRaw{}, eth.FullMathCallerRaw{}, eth.FullMathTransactorRaw{}},
	{"eth.Helpers", eth.NewHelpers, eth.NewHelpersCaller, eth.NewHelpersTransactor, eth.NewHelpersFilterer, eth.DeployHelpers, eth.HelpersBin, eth.HelpersABI,
		eth.HelpersSession{}, eth.HelpersCallerSession{}, eth.HelpersTransactorSession{}, eth.HelpersRaw{}, eth.HelpersCallerRaw{}, eth.HelpersTransactorRaw{}},
	{"eth.Hooks", eth.NewHooks, eth.NewHooksCaller, eth.NewHooksTransactor, eth.NewHooksFilterer, eth.DeployHooks, eth.HooksBin, eth.HooksABI,
		eth.HooksSession{}, eth.HooksCallerSession{}, eth.HooksTransactorSession{}, eth.HooksRaw{}, eth.HooksCallerRaw{}, eth.HooksTransactorRaw{}},
	{"eth.IAnchorBlocks", eth.NewIAnchorBlocks, eth.NewIAnchorBlocksCaller, eth.NewIAnchorBlocksTransactor, eth.NewIAnchorBlocksFilterer, nil, "", eth.IAnchorBlocksABI,
		eth.IAnchorBlocksSession{}, eth.IAnchorBlocksCallerSession{}, eth.IAnchorBlocksTransactorSession{}, eth.IAnchorBlocksRaw{}, eth.IAnchorBlocksCallerRaw{}, eth.IAnchorBlocksTransactorRaw{}},
	{"eth.IAvsSigsVerifier", eth.NewIAvsSigsVerifier, eth.NewIAvsSigsVerifierCaller, eth.NewIAvsSigsVerifierTransactor, eth.NewIAvsSigsVerifierFilterer, nil, "", eth.IAvsSigsVerifierABI,
		eth.IAvsSigsVerifierSession{}, eth.IAvsSigsVerifierCallerSession{}, eth.IAvsSigsVerifierTransactorSession{}, eth.IAvsSigsVerifierRaw{}, eth.IAvsSigsVerifierCallerRaw{}, eth.IAvsSigsVerifierTransactorRaw{}},
	{"eth.IBeaconVerifier", eth.NewIBeaconVerifier, eth.NewIBeaconVerifierCaller, eth.NewIBeaconVerifierTransactor, eth.NewIBeaconVerifierFilterer, nil, "", eth.IBeaconVerifierABI,
		eth.IBeaconVerifierSession{}, eth.IBeaconVerifierCallerSession{}, eth.IBeaconVerifierTransactorSession{}, eth.IBeaconVerifierRaw{}, eth.IBeaconVerifierCallerRaw{}, eth.IBeaconVerifierTransactorRaw{}},
	{"eth.IBlockChunks", eth.NewIBlockChunks, eth.NewIBlockChunksCaller, eth.NewIBlockChunksTransactor, eth.NewIBlockChunksFilterer, nil, "", eth.IBlockChunksABI,
		eth.IBlockChunksSession{}, eth.IBlockChunksCallerSession{}, eth.IBlockChunksTransactorSession{}, eth.IBlockChunksRaw{}, eth.IBlockChunksCallerRaw{}, eth.IBlockChunksTransactorRaw{}},
	{"eth.IBrevisApp", eth.NewIBrevisApp, eth.NewIBrevisAppCaller, eth.NewIBrevisAppTransactor, eth.NewIBrevisAppFilterer, nil, "", eth.IBrevisAppABI,
		eth.IBrevisAppSession{}, eth.IBrevisAppCallerSession{}, eth.IBrevisAppTransactorSession{}, eth.IBrevisAppRaw{}, eth.IBrevisAppCallerRaw{}, eth.IBrevisAppTransactorRaw{}},
	{"eth.IBrevisDispute", eth.NewIBrevisDispute, eth.NewIBrevisDisputeCaller, eth.NewIBrevisDisputeTransactor, eth.NewIBrevisDisputeFilterer, nil, "", eth.IBrevisDisputeABI,
		eth.IBrevisDisputeSession{}, eth.IBrevisDisputeCallerSession{}, eth.IBrevisDisputeTransactorSession{}, eth.IBrevisDisputeRaw{}, eth.IBrevisDisputeCallerRaw{}, eth.IBrevisDisputeTransactorRaw{}},
	{"eth.IBrevisProof", eth.NewIBrevisProof, eth.NewIBrevisProofCaller, eth.NewIBrevisProofTransactor, eth.NewIBrevisProofFilterer, nil, "", eth.IBrevisProofABI,
		eth.IBrevisProofSession{}, eth.IBrevisProofCallerSession{}, eth.IBrevisProofTransactorSession{}, eth.IBrevisProofRaw{}, eth.IBrevisProofCallerRaw{}, eth.IBrevisProofTransactorRaw{}},
	{"eth.IBrevisRequest", eth.NewIBrevisRequest, eth.NewIBrevisRequestCaller, eth.NewIBrevisRequestTransactor, eth.NewIBrevisRequestFilterer, nil, "", eth.IBrevisRequestABI,
		eth.IBrevisRequestSession{}, eth.IBrevisRequestCallerSession{}, eth.IBrevisRequestTransactorSession{}, eth.IBrevisRequestRaw{}, eth.IBrevisRequestCallerRaw{}, eth.IBrevisRequestTransactorRaw{}},
	{"eth.IBrevisTypes", eth.NewIBrevisTypes, eth.NewIBrevisTypesCaller, eth.NewIBrevisTypesTransactor, eth.NewIBrevisTypesFilterer, nil, "", eth.IBrevisTypesABI,
		eth.IBrevisTypesSession{}, eth.IBrevisTypesCallerSession{}, eth.IBrevisTypesTransactorSession{}, eth.IBrevisTypesRaw{}, eth.IBrevisTypesCallerRaw{}, eth.IBrevisTypesTransactorRaw{}},
	{"eth.IBvnSigsVerifier", eth.NewIBvnSigsVerifier, eth.NewIBvnSigsVerifierCaller, eth.NewIBvnSigsVerifierTransactor, eth.NewIBvnSigsVerifierFilterer, nil, "", eth.IBvnSigsVerifierABI,
		eth.IBvnSigsVerifierSession{}, eth.IBvnSigsVerifierCallerSession{}, eth.IBvnSigsVerifierTransactorSession{}, eth.IBvnSigsVerifierRaw{}, eth.IBvnSigsVerifierCallerRaw{}, eth.IBvnSigsVerifierTransactorRaw{}},
	{"eth.IDynamicFeeManager", eth.NewIDynamicFeeManager, eth.NewIDynamicFeeManagerCaller, eth.NewIDynamicFeeManagerTransactor, eth.NewIDynamicFeeManagerFilterer, nil, "", eth.IDynamicFeeManagerABI,
		eth.IDynamicFeeManagerSession{}, eth.IDynamicFeeManagerCallerSession{}, eth.IDynamicFeeManagerTransactorSession{}, eth.IDynamicFeeManagerRaw{}, eth.IDynamicFeeManagerCallerRaw{}, eth.IDynamicFeeManagerTransactorRaw{}},
	{"eth.IERC1155", eth.NewIERC1155, eth.NewIERC1155Caller, eth.NewIERC1155Transactor, eth.NewIERC1155Filterer, nil, "", eth.IERC1155ABI,
		eth.IERC1155Session{}, eth.IERC1155CallerSession{}, eth.IERC1155TransactorSession{}, eth.IERC1155Raw{}, eth.IERC1155CallerRaw{}, eth.IERC1155TransactorRaw{}},
	{"eth.IERC165", eth.NewIERC165, eth.NewIERC165Caller, eth.NewIERC165Transactor, eth.NewIERC165Filterer, nil, "", eth.IERC165ABI,
		eth.IERC165Session{}, eth.IERC165CallerSession{}, eth.IERC165TransactorSession{}, eth.IERC165Raw{}, eth.IERC165CallerRaw{}, eth.IERC165TransactorRaw{}},
	{"eth.IERC20", eth.NewIERC20, eth.NewIERC20Caller, eth.NewIERC20Transactor, eth.NewIERC20Filterer, nil, "", eth.IERC20ABI,
		eth.IERC20Session{}, eth.IERC20CallerSession{}, eth.IERC20TransactorSession{}, eth.IERC20Raw{}, eth.IERC20CallerRaw{}, eth.IERC20TransactorRaw{}},
	{"eth.IERC20Metadata", eth.NewIERC20Metadata, eth.NewIERC20MetadataCaller, eth.NewIERC20MetadataTransactor, eth.NewIERC20MetadataFilterer, nil, "", eth.IERC20MetadataABI,
		eth.IERC20MetadataSession{}, eth.IERC20MetadataCallerSession{}, eth.IERC20MetadataTransactorSession{}, eth.IERC20MetadataRaw{}, eth.IERC20MetadataCallerRaw{}, eth.IERC20MetadataTransactorRaw{}},
	{"eth.IERC20Minimal", eth.NewIERC20Minimal, eth.NewIERC20MinimalCaller, eth.NewIERC20MinimalTransactor, eth.NewIERC20MinimalFilterer, nil, "", eth.IERC20MinimalABI,
		eth.IERC20MinimalSession{}, eth.IERC20MinimalCallerSession{}, eth.IERC20MinimalTransactorSession{}, eth.IERC20MinimalRaw{}, eth.IERC20MinimalCallerRaw{}, eth.IERC20MinimalTransactorRaw{}},
	{"eth.IEthereumLightClient", eth.NewIEthereumLightClient, eth.NewIEthereumLightClientCaller, eth.NewIEthereumLightClientTransactor, eth.NewIEthereumLightClientFilterer, nil, "", eth.IEthereumLightClientABI,
		eth.IEthereumLightClientSession{}, eth.IEthereumLightClientCallerSession{}, eth.IEthereumLightClientTransactorSession{}, eth.IEthereumLightClientRaw{}, eth.IEthereumLightClientCallerRaw{}, eth.IEthereumLightClientTransactorRaw{}},
	{"eth.IFees", eth.NewIFees, eth.NewIFeesCaller, eth.NewIFeesTransactor, eth.NewIFeesFilterer, nil, "", eth.IFeesABI,
		eth.IFeesSession{}, eth.IFeesCallerSession{}, eth.IFeesTransactorSession{}, eth.IFeesRaw{}, eth.IFeesCallerRaw{}, eth.IFeesTransactorRaw{}},
	{"eth.IHookFeeManager", eth.NewIHookFeeManager, eth.NewIHookFeeManagerCaller, eth.NewIHookFeeManagerTransactor, eth.NewIHookFeeManagerFilterer, nil, "", eth.IHookFeeManagerABI,
		eth.IHookFeeManagerSession{}, eth.IHookFeeManagerCallerSession{}, eth.IHookFeeManagerTransactorSession{}, eth.IHookFeeManagerRaw{}, eth.IHookFeeManagerCallerRaw{}, eth.IHookFeeManagerTransactorRaw{}},
	{"eth.IHooks", eth.NewIHooks, eth.NewIHooksCaller, eth.NewIHooksTransactor, eth.NewIHooksFilterer, nil, "", eth.IHooksABI,
		eth.IHooksSession{}, eth.IHooksCallerSession{}, eth.IHooksTransactorSession{}, eth.IHooksRaw{}, eth.IHooksCallerRaw{}, eth.IHooksTransactorRaw{}},
	{"eth.IMessageBridge", eth.NewIMessageBridge, eth.NewIMessageBridgeCaller, eth.NewIMessageBridgeTransactor, eth.NewIMessageBridgeFilterer, nil, "", eth.IMessageBridgeABI,
		eth.IMessageBridgeSession{}, eth.IMessageBridgeCallerSession{}, eth.IMessageBridgeTransactorSession{}, eth.IMessageBridgeRaw{}, eth.IMessageBridgeCallerRaw{}, eth.IMessageBridgeTransactorRaw{}},
	{"eth.IMessageReceiverApp", eth.NewIMessageReceiverApp, eth.NewIMessageReceiverAppCaller, eth.NewIMessageReceiverAppTransactor, eth.NewIMessageReceiverAppFilterer, nil, "", eth.IMessageReceiverAppABI,
		eth.IMessageReceiverAppSession{}, eth.IMessageReceiverAppCallerSession{}, eth.IMessageReceiverAppTransactorSession{}, eth.IMessageReceiverAppRaw{}, eth.IMessageReceiverAppCallerRaw{}, eth.IMessageReceiverAppTransactorRaw{}},
	{"eth.IPeggedToken", eth.NewIPeggedToken, eth.NewIPeggedTokenCaller, eth.NewIPeggedTokenTransactor, eth.NewIPeggedTokenFilterer, nil, "", eth.IPeggedTokenABI,
		eth.IPeggedTokenSession{}, eth.IPeggedTokenCallerSession{}, eth.IPeggedTokenTransactorSession{}, eth.IPeggedTokenRaw{}, eth.IPeggedTokenCallerRaw{}, eth.IPeggedTokenTransactorRaw{}},
	{"eth.IPoolManager", eth.NewIPoolManager, eth.NewIPoolManagerCaller, eth.NewIPoolManagerTransactor, eth.NewIPoolManagerFilterer, nil, "", eth.IPoolManagerABI,
		eth.IPoolManagerSession{}, eth.IPoolManagerCallerSession{}, eth.IPoolManagerTransactorSession{}, eth.IPoolManagerRaw{}, eth.IPoolManagerCallerRaw{}, eth.IPoolManagerTransactorRaw{}},
	{"eth.IReceiptVerifier", eth.NewIReceiptVerifier, eth.NewIReceiptVerifierCaller, eth.NewIReceiptVerifierTransactor, eth.NewIReceiptVerifierFilterer, nil, "", eth.IReceiptVerifierABI,
		eth.IReceiptVerifierSession{}, eth.IReceiptVerifierCallerSession{}, eth.IReceiptVerifierTransactorSession{}, eth.IReceiptVerifierRaw{}, eth.IReceiptVerifierCallerRaw{}, eth.IReceiptVerifierTransactorRaw{}},
	{"eth.ISMT", eth.NewISMT, eth.NewISMTCaller, eth.NewISMTTransactor, eth.NewISMTFilterer, nil, "", eth.ISMTABI,
		eth.ISMTSession{}, eth.ISMTCallerSession{}, eth.ISMTTransactorSession{}, eth.ISMTRaw{}, eth.ISMTCallerRaw{}, eth.ISMTTransactorRaw{}},
	{"eth.ISlotValueVerifier", eth.NewISlotValueVerifier, eth.NewISlotValueVerifierCaller, eth.NewISlotValueVerifierTransactor, eth.NewISlotValueVerifierFilterer, nil, "", eth.ISlotValueVerifierABI,
		eth.ISlotValueVerifierSession{}, eth.ISlotValueVerifierCallerSession{}, eth.ISlotValueVerifierTransactorSession{}, eth.ISlotValueVerifierRaw{}, eth.ISlotValueVerifierCallerRaw{}, eth.ISlotValueVerifierTransactorRaw{}},
	{"eth.ITxVerifier", eth.NewITxVerifier, eth.NewITxVerifierCaller, eth.NewITxVerifierTransactor, eth.NewITxVerifierFilterer, nil, "", eth.ITxVerifierABI,
		eth.ITxVerifierSession{}, eth.ITxVerifierCallerSession{}, eth.ITxVerifierTransactorSession{}, eth.ITxVerifierRaw{}, eth.ITxVerifierCallerRaw{}, eth.ITxVerifierTransactorRaw{}},
	{"eth.IUniswapSumVolume", eth.NewIUniswapSumVolume, eth.NewIUniswapSumVolumeCaller, eth.NewIUniswapSumVolumeTransactor, eth.NewIUniswapSumVolumeFilterer, nil, "", eth.IUniswapSumVolumeABI,
		eth.IUniswapSumVolumeSession{}, eth.IUniswapSumVolumeCallerSession{}, eth.IUniswapSumVolumeTransactorSession{}, eth.IUniswapSumVolumeRaw{}, eth.IUniswapSumVolumeCallerRaw{}, eth.IUniswapSumVolumeTransactorRaw{}},
	{"eth.IVerifier", eth.NewIVerifier, eth.NewIVerifierCaller, eth.NewIVerifierTransactor, eth.NewIVerifierFilterer, nil, "", eth.IVerifierABI,
		eth.IVerifierSession{}, eth.IVerifierCallerSession{}, eth.IVerifierTransactorSession{}, eth.IVerifierRaw{}, eth.IVerifierCallerRaw{}, eth.IVerifierTransactorRaw{}},
	{"eth.IZkpVerifier", eth.NewIZkpVerifier, eth.NewIZkpVerifierCaller, eth.NewIZkpVerifierTransactor, eth.NewIZkpVerifierFilterer, nil, "", eth.IZkpVerifierABI,
		eth.IZkpVerifierSession{}, eth.IZkpVerifierCallerSession{}, eth.IZkpVerifierTransactorSession{}, eth.IZkpVerifierRaw{}, eth.IZkpVerifierCallerRaw{}, eth.IZkpVerifierTransactorRaw{}},
	{"eth.LightClientStore", eth.NewLightClientStore, eth.NewLightClientStoreCaller, eth.NewLightClientStoreTransactor, eth.NewLightClientStoreFilterer, nil, "", eth.LightClientStoreABI,
		eth.LightClientStoreSession{}, eth.LightClientStoreCallerSession{}, eth.LightClientStoreTransactorSession{}, eth.LightClientStoreRaw{}, eth.LightClientStoreCallerRaw{}, eth.LightClientStoreTransactorRaw{}},
	{"eth.MerkleProofTree", eth.NewMerkleProofTree, eth.NewMerkleProofTreeCaller, eth.NewMerkleProofTreeTransactor, eth.NewMerkleProofTreeFilterer, eth.DeployMerkleProofTree, eth.MerkleProofTreeBin, eth.MerkleProofTreeABI,
		eth.MerkleProofTreeSession{}, eth.MerkleProofTreeCallerSession{}, eth.MerkleProofTreeTransactorSession{}, eth.MerkleProofTreeRaw{}, eth.MerkleProofTreeCallerRaw{}, eth.MerkleProofTreeTransactorRaw{}},
	{"eth.MessageApp", eth.NewMessageApp, eth.NewMessageAppCaller, eth.NewMessageAppTransactor, eth.NewMessageAppFilterer, nil, "", eth.MessageAppABI,
		eth.MessageAppSession{}, eth.MessageAppCallerSession{}, eth.MessageAppTransactorSession{}, eth.MessageAppRaw{}, eth.MessageAppCallerRaw{}, eth.MessageAppTransactorRaw{}},
	{"eth.MessageBridge", eth.NewMessageBridge, eth.NewMessageBridgeCaller, eth.NewMessageBridgeTransactor, eth.NewMessageBridgeFilterer, eth.DeployMessageBridge, eth.MessageBridgeBin, eth.MessageBridgeABI,
		eth.MessageBridgeSession{}, eth.MessageBridgeCallerSession{}, eth.MessageBridgeTransactorSession{}, eth.MessageBridgeRaw{}, eth.MessageBridgeCallerRaw{}, eth.MessageBridgeTransactorRaw{}},
	{"eth.MessageBridgeAddress", eth.NewMessageBridgeAddress, eth.NewMessageBridgeAddressCaller, eth.NewMessageBridgeAddressTransactor, eth.NewMessageBridgeAddressFilterer, nil, "", eth.MessageBridgeAddressABI,
		eth.MessageBridgeAddressSession{}, eth.MessageBridgeAddressCallerSession{}, eth.MessageBridgeAddressTransactorSession{}, eth.MessageBridgeAddressRaw{}, eth.MessageBridgeAddressCallerRaw{}, eth.MessageBridgeAddressTransactorRaw{}},
	{"eth.MessageReceiverApp", eth.NewMessageReceiverApp, eth.NewMessageReceiverAppCaller, eth.NewMessageReceiverAppTransactor, eth.NewMessageReceiverAppFilterer, nil, "", eth.MessageReceiverAppABI,
		eth.MessageReceiverAppSession{}, eth.MessageReceiverAppCallerSession{}, eth.MessageReceiverAppTransactorSession{}, eth.MessageReceiverAppRaw{}, eth.MessageReceiverAppCallerRaw{}, eth.MessageReceiverAppTransactorRaw{}},
	{"eth.MessageSenderApp", eth.NewMessageSenderApp, eth.NewMessageSenderAppCaller, eth.NewMessageSenderAppTransactor, eth.NewMessageSenderAppFilterer, nil, "", eth.MessageSenderAppABI,
		eth.MessageSenderAppSession{}, eth.MessageSenderAppCallerSession{}, eth.MessageSenderAppTransactorSession{}, eth.MessageSenderAppRaw{}, eth.MessageSenderAppCallerRaw{}, eth.MessageSenderAppTransactorRaw{}},
	{"eth.MintableERC20", eth.NewMintableERC20, eth.NewMintableERC20Caller, eth.NewMintableERC20Transactor, eth.NewMintableERC20Filterer, eth.DeployMintableERC20, eth.MintableERC20Bin, eth.MintableERC20ABI,
		eth.MintableERC20Session{}, eth.MintableERC20CallerSession{}, eth.MintableERC20TransactorSession{}, eth.MintableERC20Raw{}, eth.MintableERC20CallerRaw{}, eth.MintableERC20TransactorRaw{}},
	{"eth.MockUniswapSumVolume", eth.NewMockUniswapSumVolume, eth.NewMockUniswapSumVolumeCaller, eth.NewMockUniswapSumVolumeTransactor, eth.NewMockUniswapSumVolumeFilterer, eth.DeployMockUniswapSumVolume, eth.MockUniswapSumVolumeBin, eth.MockUniswapSumVolumeABI,
		eth.MockUniswapSumVolumeSession{}, eth.MockUniswapSumVolumeCallerSession{}, eth.MockUniswapSumVolumeTransactorSession{}, eth.MockUniswapSumVolumeRaw{}, eth.MockUniswapSumVolumeCallerRaw{}, eth.MockUniswapSumVolumeTransactorRaw{}},
	{"eth.MsgLib", eth.NewMsgLib, eth.NewMsgLibCaller, eth.NewMsgLibTransactor, eth.NewMsgLibFilterer, eth.DeployMsgLib, eth.MsgLibBin, eth.MsgLibABI,
		eth.MsgLibSession{}, eth.MsgLibCallerSession{}, eth.MsgLibTransactorSession{}, eth.MsgLibRaw{}, eth.MsgLibCallerRaw{}, eth.MsgLibTransactorRaw{}},
	{"eth.MsgReceiver", eth.NewMsgReceiver, eth.NewMsgReceiverCaller, eth.NewMsgReceiverTransactor, eth.NewMsgReceiverFilterer, eth.DeployMsgReceiver, eth.MsgReceiverBin, eth.MsgReceiverABI,
		eth.MsgReceiverSession{}, eth.MsgReceiverCallerSession{}, eth.MsgReceiverTransactorSession{}, eth.MsgReceiverRaw{}, eth.MsgReceiverCallerRaw{}, eth.MsgReceiverTransactorRaw{}},
	{"eth.MsgSender", eth.NewMsgSender, eth.NewMsgSenderCaller, eth.NewMsgSenderTransactor, eth.NewMsgSenderFilterer, eth.DeployMsgSender, eth.MsgSenderBin, eth.MsgSenderABI,
		eth.MsgSenderSession{}, eth.MsgSenderCallerSession{}, eth.MsgSenderTransactorSession{}, eth.MsgSenderRaw{}, eth.MsgSenderCallerRaw{}, eth.MsgSenderTransactorRaw{}},
	{"eth.Ownable", eth.NewOwnable, eth.NewOwnableCaller, eth.NewOwnableTransactor, eth.NewOwnableFilterer, nil, "", eth.OwnableABI,
		eth.OwnableSession{}, eth.OwnableCallerSession{}, eth.OwnableTransactorSession{}, eth.OwnableRaw{}, eth.OwnableCallerRaw{}, eth.OwnableTransactorRaw{}},
	{"eth.Pairing", eth.NewPairing, eth.NewPairingCaller, eth.NewPairingTransactor, eth.NewPairingFilterer, eth.DeployPairing, eth.PairingBin, eth.PairingABI,
		eth.PairingSession{}, eth.PairingCallerSession{}, eth.PairingTransactorSession{}, eth.PairingRaw{}, eth.PairingCallerRaw{}, eth.PairingTransactorRaw{}},
	{"eth.Pausable", eth.NewPausable, eth.NewPausableCaller, eth.NewPausableTransactor, eth.NewPausableFilterer, nil, "", eth.PausableABI,
		eth.PausableSession{}, eth.PausableCallerSession{}, eth.PausableTransactorSession{}, eth.PausableRaw{}, eth.PausableCallerRaw{}, eth.PausableTransactorRaw{}},
	{"eth.Pauser", eth.NewPauser, eth.NewPauserCaller, eth.NewPauserTransactor, eth.NewPauserFilterer, nil, "", eth.PauserABI,
		eth.PauserSession{}, eth.PauserCallerSession{}, eth.PauserTransactorSession{}, eth.PauserRaw{}, eth.PauserCallerRaw{}, eth.PauserTransactorRaw{}},
	{"eth.PegBridge", eth.NewPegBridge, eth.NewPegBridgeCaller, eth.NewPegBridgeTransactor, eth.NewPegBridgeFilterer, eth.DeployPegBridge, eth.PegBridgeBin, eth.PegBridgeABI,
		eth.PegBridgeSession{}, eth.PegBridgeCallerSession{}, eth.PegBridgeTransactorSession{}, eth.PegBridgeRaw{}, eth.PegBridgeCallerRaw{}, eth.PegBridgeTransactorRaw{}},
	{"eth.Pool", eth.NewPool, eth.NewPoolCaller, eth.NewPoolTransactor, eth.NewPoolFilterer, eth.DeployPool, eth.PoolBin, eth.PoolABI,
		eth.PoolSession{}, eth.PoolCallerSession{}, eth.PoolTransactorSession{}, eth.PoolRaw{}, eth.PoolCallerRaw{}, eth.PoolTransactorRaw{}},
	{"eth.PoolIdLibrary", eth.NewPoolIdLibrary, eth.NewPoolIdLibraryCaller, eth.NewPoolIdLibraryTransactor, eth.NewPoolIdLibraryFilterer, eth.DeployPoolIdLibrary, eth.PoolIdLibraryBin, eth.PoolIdLibraryABI,
		eth.PoolIdLibrarySession{}, eth.PoolIdLibraryCallerSession{}, eth.PoolIdLibraryTransactorSession{}, eth.PoolIdLibraryRaw{}, eth.PoolIdLibraryCallerRaw{}, eth.PoolIdLibraryTransactorRaw{}},
	{"eth.Position", eth.NewPosition, eth.NewPositionCaller, eth.NewPositionTransactor, eth.NewPositionFilterer, eth.DeployPosition, eth.PositionBin, eth.PositionABI,
		eth.PositionSession{}, eth.PositionCallerSession{}, eth.PositionTransactorSession{}, eth.PositionRaw{}, eth.PositionCallerRaw{}, eth.PositionTransactorRaw{}},
	{"eth.RLPReader", eth.NewRLPReader, eth.NewRLPReaderCaller, eth.NewRLPReaderTransactor, eth.NewRLPReaderFilterer, eth.DeployRLPReader, eth.RLPReaderBin, eth.RLPReaderABI,
		eth.RLPReaderSession{}, eth.RLPReaderCallerSession{}, eth.RLPReaderTransactorSession{}, eth.RLPReaderRaw{}, eth.RLPReaderCallerRaw{}, eth.RLPReaderTransactorRaw{}},
	{"eth.ReceiptVerifier", eth.NewReceiptVerifier, eth.NewReceiptVerifierCaller, eth.NewReceiptVerifierTransactor, eth.NewReceiptVerifierFilterer, eth.DeployReceiptVerifier, eth.ReceiptVerifierBin, eth.ReceiptVerifierABI,
		eth.ReceiptVerifierSession{}, eth.ReceiptVerifierCallerSession{}, eth.ReceiptVerifierTransactorSession{}, eth.ReceiptVerifierRaw{}, eth.ReceiptVerifierCallerRaw{}, eth.ReceiptVerifierTransactorRaw{}},
	{"eth.ReentrancyGuard", eth.NewReentrancyGuard, eth.NewReentrancyGuardCaller, eth.NewReentrancyGuardTransactor, eth.NewReentrancyGuardFilterer, nil, "", eth.ReentrancyGuardABI,
		eth.ReentrancyGuardSession{}, eth.ReentrancyGuardCallerSession{}, eth.ReentrancyGuardTransactorSession{}, eth.ReentrancyGuardRaw{}, eth.ReentrancyGuardCallerRaw{}, eth.ReentrancyGuardTransactorRaw{}},
	{"eth.SMT", eth.NewSMT, eth.NewSMTCaller, eth.NewSMTTransactor, eth.NewSMTFilterer, eth.DeploySMT, eth.SMTBin, eth.SMTABI,
		eth.SMTSession{}, eth.SMTCallerSession{}, eth.SMTTransactorSession{}, eth.SMTRaw{}, eth.SMTCallerRaw{}, eth.SMTTransactorRaw{}},
	{"eth.SafeCast", eth.NewSafeCast, eth.NewSafeCastCaller, eth.NewSafeCastTransactor, eth.NewSafeCastFilterer, eth.DeploySafeCast, eth.SafeCastBin, eth.SafeCastABI,
		eth.SafeCastSession{}, eth.SafeCastCallerSession{}, eth.SafeCastTransactorSession{}, eth.SafeCastRaw{}, eth.SafeCastCallerRaw{}, eth.SafeCastTransactorRaw{}},
	{"eth.SafeERC20", eth.NewSafeERC20, eth.NewSafeERC20Caller, eth.NewSafeERC20Transactor, eth.NewSafeERC20Filterer, eth.DeploySafeERC20, eth.SafeERC20Bin, eth.SafeERC20ABI,
		eth.SafeERC20Session{}, eth.SafeERC20CallerSession{}, eth.SafeERC20TransactorSession{}, eth.SafeERC20Raw{}, eth.SafeERC20CallerRaw{}, eth.SafeERC20TransactorRaw{}},
	{"eth.SameChainAnchorBlocks", eth.NewSameChainAnchorBlocks, eth.NewSameChainAnchorBlocksCaller, eth.NewSameChainAnchorBlocksTransactor, eth.NewSameChainAnchorBlocksFilterer, eth.DeploySameChainAnchorBlocks, eth.SameChainAnchorBlocksBin, eth.SameChainAnchorBlocksABI,
		eth.SameChainAnchorBlocksSession{}, eth.SameChainAnchorBlocksCallerSession{}, eth.SameChainAnchorBlocksTransactorSession{}, eth.SameChainAnchorBlocksRaw{}, eth.SameChainAnchorBlocksCallerRaw{}, eth.SameChainAnchorBlocksTransactorRaw{}},
	{"eth.SlotValue", eth.NewSlotValue, eth.NewSlotValueCaller, eth.NewSlotValueTransactor, eth.NewSlotValueFilterer, eth.DeploySlotValue, eth.SlotValueBin, eth.SlotValueABI,
		eth.SlotValueSession{}, eth.SlotValueCallerSession{}, eth.SlotValueTransactorSession{}, eth.SlotValueRaw{}, eth.SlotValueCallerRaw{}, eth.SlotValueTransactorRaw{}},
	{"eth.SlotValueVerifier", eth.NewSlotValueVerifier, eth.NewSlotValueVerifierCaller, eth.NewSlotValueVerifierTransactor, eth.NewSlotValueVerifierFilterer, eth.DeploySlotValueVerifier, eth.SlotValueVerifierBin, eth.SlotValueVerifierABI,
		eth.SlotValueVerifierSession{}, eth.SlotValueVerifierCallerSession{}, eth.SlotValueVerifierTransactorSession{}, eth.SlotValueVerifierRaw{}, eth.SlotValueVerifierCallerRaw{}, eth.SlotValueVerifierTransactorRaw{}},
	{"eth.SqrtPriceMath", eth.NewSqrtPriceMath, eth.NewSqrtPriceMathCaller, eth.NewSqrtPriceMathTransactor, eth.NewSqrtPriceMathFilterer, eth.DeploySqrtPriceMath, eth.SqrtPriceMathBin, eth.SqrtPriceMathABI,
		eth.SqrtPriceMathSession{}, eth.SqrtPriceMathCallerSession{}, eth.SqrtPriceMathTransactorSession{}, eth.SqrtPriceMathRaw{}, eth.SqrtPriceMathCallerRaw{}, eth.SqrtPriceMathTransactorRaw{}},
	{"eth.Strings", eth.NewStrings, eth.NewStringsCaller, eth.NewStringsTransactor, eth.NewStringsFilterer, eth.DeployStrings, eth.StringsBin, eth.StringsABI,
		eth.StringsSession{}, eth.StringsCallerSession{}, eth.StringsTransactorSession{}, eth.StringsRaw{}, eth.StringsCallerRaw{}, eth.StringsTransactorRaw{}},
	{"eth.SwapMath", eth.NewSwapMath, eth.NewSwapMathCaller, eth.NewSwapMathTransactor, eth.NewSwapMathFilterer, eth.DeploySwapMath, eth.SwapMathBin, eth.SwapMathABI,
		eth.SwapMathSession{}, eth.SwapMathCallerSession{}, eth.SwapMathTransactorSession{}, eth.SwapMathRaw{}, eth.SwapMathCallerRaw{}, eth.SwapMathTransactorRaw{}},
	{"eth.TestSMT", eth.NewTestSMT, eth.NewTestSMTCaller, eth.NewTestSMTTransactor, eth.NewTestSMTFilterer, eth.DeployTestSMT, eth.TestSMTBin, eth.TestSMTABI,
		eth.TestSMTSession{}, eth.TestSMTCallerSession{}, eth.TestSMTTransactorSession{}, eth.TestSMTRaw{}, eth.TestSMTCallerRaw{}, eth.TestSMTTransactorRaw{}},
	{"eth.TickBitmap", eth.NewTickBitmap, eth.NewTickBitmapCaller, eth.NewTickBitmapTransactor, eth.NewTickBitmapFilterer, eth.DeployTickBitmap, eth.TickBitmapBin, eth.TickBitmapABI,
		eth.TickBitmapSession{}, eth.TickBitmapCallerSession{}, eth.TickBitmapTransactorSession{}, eth.TickBitmapRaw{}, eth.TickBitmapCallerRaw{}, eth.TickBitmapTransactorRaw{}},
	{"eth.TickMath", eth.NewTickMath, eth.NewTickMathCaller, eth.NewTickMathTransactor, eth.NewTickMathFilterer, eth.DeployTickMath, eth.TickMathBin, eth.TickMathABI,
		eth.TickMathSession{}, eth.TickMathCallerSession{}, eth.TickMathTransactorSession{}, eth.TickMathRaw{}, eth.TickMathCallerRaw{}, eth.TickMathTransactorRaw{}},
	{"eth.TierFactory", eth.NewTierFactory, eth.NewTierFactoryCaller, eth.NewTierFactoryTransactor, eth.NewTierFactoryFilterer, eth.DeployTierFactory, eth.TierFactoryBin, eth.TierFactoryABI,
		eth.TierFactorySession{}, eth.TierFactoryCallerSession{}, eth.TierFactoryTransactorSession{}, eth.TierFactoryRaw{}, eth.TierFactoryCallerRaw{}, eth.TierFactoryTransactorRaw{}},
	{"eth.TierHook", eth.NewTierHook, eth.NewTierHookCaller, eth.NewTierHookTransactor, eth.NewTierHookFilterer, eth.DeployTierHook, eth.TierHookBin, eth.TierHookABI,
		eth.TierHookSession{}, eth.TierHookCallerSession{}, eth.TierHookTransactorSession{}, eth.TierHookRaw{}, eth.TierHookCallerRaw{}, eth.TierHookTransactorRaw{}},
	{"eth.TokenVault", eth.NewTokenVault, eth.NewTokenVaultCaller, eth.NewTokenVaultTransactor, eth.NewTokenVaultFilterer, eth.DeployTokenVault, eth.TokenVaultBin, eth.TokenVaultABI,
		eth.TokenVaultSession{}, eth.TokenVaultCallerSession{}, eth.TokenVaultTransactorSession{}, eth.TokenVaultRaw{}, eth.TokenVaultCallerRaw{}, eth.TokenVaultTransactorRaw{}},
	{"eth.Tx", eth.NewTx, eth.NewTxCaller, eth.NewTxTransactor, eth.NewTxFilterer, eth.DeployTx, eth.TxBin, eth.TxABI,
		eth.TxSession{}, eth.TxCallerSession{}, eth.TxTransactorSession{}, eth.TxRaw{}, eth.TxCallerRaw{}, eth.TxTransactorRaw{}},
	{"eth.TxVerifier", eth.NewTxVerifier, eth.NewTxVerifierCaller, eth.NewTxVerifierTransactor, eth.NewTxVerifierFilterer, eth.DeployTxVerifier, eth.TxVerifierBin, eth.TxVerifierABI,
		eth.TxVerifierSession{}, eth.TxVerifierCallerSession{}, eth.TxVerifierTransactorSession{}, eth.TxVerifierRaw{}, eth.TxVerifierCallerRaw{}, eth.TxVerifierTransactorRaw{}},
	{"eth.UniswapSumVolume", eth.NewUniswapSumVolume, eth.NewUniswapSumVolumeCaller, eth.NewUniswapSumVolumeTransactor, eth.NewUniswapSumVolumeFilterer, eth.DeployUniswapSumVolume, eth.UniswapSumVolumeBin, eth.UniswapSumVolumeABI,
		eth.UniswapSumVolumeSession{}, eth.UniswapSumVolumeCallerSession{}, eth.UniswapSumVolumeTransactorSession{}, eth.UniswapSumVolumeRaw{}, eth.UniswapSumVolumeCallerRaw{}, eth.UniswapSumVolumeTransactorRaw{}},
	{"eth.UnsafeMath", eth.NewUnsafeMath, eth.NewUnsafeMathCaller, eth.NewUnsafeMathTransactor, eth.NewUnsafeMathFilterer, eth.DeployUnsafeMath, eth.UnsafeMathBin, eth.UnsafeMathABI,
		eth.UnsafeMathSession{}, eth.UnsafeMathCallerSession{}, eth.UnsafeMathTransactorSession{}, eth.UnsafeMathRaw{}, eth.UnsafeMathCallerRaw{}, eth.UnsafeMathTransactorRaw{}},
	{"eth.Utils", eth.NewUtils, eth.NewUtilsCaller, eth.NewUtilsTransactor, eth.NewUtilsFilterer, eth.DeployUtils, eth.UtilsBin, eth.UtilsABI,
		eth.UtilsSession{}, eth.UtilsCallerSession{}, eth.UtilsTransactorSession{}, eth.UtilsRaw{}, eth.UtilsCallerRaw{}, eth.UtilsTransactorRaw{}},
}
