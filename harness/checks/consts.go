package checks

import (
	"bytes"

	"github.com/Comcast/scte35-go/pkg/scte35"
	"pgregory.net/rapid"
	"verifharness/api"
	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// The constants a user writes instead of a code, and the code of the standard
// that each stands for.
type constant struct {
	Kind, Name string
	Got        uint64
	Want       uint32
}

func con[T ~int | ~uint32](kind, name string, got T, want uint32) constant {
	return constant{kind, name, uint64(got), want}
}

var constants = []constant{
	con("segmentation_type_id", "SegmentationTypeNotIndicated", scte35.SegmentationTypeNotIndicated, 0x00),
	con("segmentation_type_id", "SegmentationTypeContentIdentification", scte35.SegmentationTypeContentIdentification, 0x01),
	con("segmentation_type_id", "SegmentationTypeProgramStart", scte35.SegmentationTypeProgramStart, 0x10),
	con("segmentation_type_id", "SegmentationTypeProgramEnd", scte35.SegmentationTypeProgramEnd, 0x11),
	con("segmentation_type_id", "SegmentationTypeProgramEarlyTermination", scte35.SegmentationTypeProgramEarlyTermination, 0x12),
	con("segmentation_type_id", "SegmentationTypeProgramBreakaway", scte35.SegmentationTypeProgramBreakaway, 0x13),
	con("segmentation_type_id", "SegmentationTypeProgramResumption", scte35.SegmentationTypeProgramResumption, 0x14),
	con("segmentation_type_id", "SegmentationTypeProgramRunoverPlanned", scte35.SegmentationTypeProgramRunoverPlanned, 0x15),
	con("segmentation_type_id", "SegmentationTypeProgramRunoverUnplanned", scte35.SegmentationTypeProgramRunoverUnplanned, 0x16),
	con("segmentation_type_id", "SegmentationTypeProgramOverlapStart", scte35.SegmentationTypeProgramOverlapStart, 0x17),
	con("segmentation_type_id", "SegmentationTypeProgramBlackoutOverride", scte35.SegmentationTypeProgramBlackoutOverride, 0x18),
	con("segmentation_type_id", "SegmentationTypeProgramStartInProgress", scte35.SegmentationTypeProgramStartInProgress, 0x19),
	con("segmentation_type_id", "SegmentationTypeChapterStart", scte35.SegmentationTypeChapterStart, 0x20),
	con("segmentation_type_id", "SegmentationTypeChapterEnd", scte35.SegmentationTypeChapterEnd, 0x21),
	con("segmentation_type_id", "SegmentationTypeBreakStart", scte35.SegmentationTypeBreakStart, 0x22),
	con("segmentation_type_id", "SegmentationTypeBreakEnd", scte35.SegmentationTypeBreakEnd, 0x23),
	con("segmentation_type_id", "SegmentationTypeOpeningCreditStart", scte35.SegmentationTypeOpeningCreditStart, 0x24),
	con("segmentation_type_id", "SegmentationTypeOpeningCreditEnd", scte35.SegmentationTypeOpeningCreditEnd, 0x25),
	con("segmentation_type_id", "SegmentationTypeClosingCreditStart", scte35.SegmentationTypeClosingCreditStart, 0x26),
	con("segmentation_type_id", "SegmentationTypeClosingCreditEnd", scte35.SegmentationTypeClosingCreditEnd, 0x27),
	con("segmentation_type_id", "SegmentationTypeProviderAdStart", scte35.SegmentationTypeProviderAdStart, 0x30),
	con("segmentation_type_id", "SegmentationTypeProviderAdEnd", scte35.SegmentationTypeProviderAdEnd, 0x31),
	con("segmentation_type_id", "SegmentationTypeDistributorAdStart", scte35.SegmentationTypeDistributorAdStart, 0x32),
	con("segmentation_type_id", "SegmentationTypeDistributorAdEnd", scte35.SegmentationTypeDistributorAdEnd, 0x33),
	con("segmentation_type_id", "SegmentationTypeProviderPOStart", scte35.SegmentationTypeProviderPOStart, 0x34),
	con("segmentation_type_id", "SegmentationTypeProviderPOEnd", scte35.SegmentationTypeProviderPOEnd, 0x35),
	con("segmentation_type_id", "SegmentationTypeDistributorPOStart", scte35.SegmentationTypeDistributorPOStart, 0x36),
	con("segmentation_type_id", "SegmentationTypeDistributorPOEnd", scte35.SegmentationTypeDistributorPOEnd, 0x37),
	con("segmentation_type_id", "SegmentationTypeProviderOverlayPOStart", scte35.SegmentationTypeProviderOverlayPOStart, 0x38),
	con("segmentation_type_id", "SegmentationTypeProviderOverlayPOEnd", scte35.SegmentationTypeProviderOverlayPOEnd, 0x39),
	con("segmentation_type_id", "SegmentationTypeDistributorOverlayPOStart", scte35.SegmentationTypeDistributorOverlayPOStart, 0x3a),
	con("segmentation_type_id", "SegmentationTypeDistributorOverlayPOEnd", scte35.SegmentationTypeDistributorOverlayPOEnd, 0x3b),
	con("segmentation_type_id", "SegmentationTypeProviderPromoStart", scte35.SegmentationTypeProviderPromoStart, 0x3c),
	con("segmentation_type_id", "SegmentationTypeProviderPromoEnd", scte35.SegmentationTypeProviderPromoEnd, 0x3d),
	con("segmentation_type_id", "SegmentationTypeDistributorPromoStart", scte35.SegmentationTypeDistributorPromoStart, 0x3e),
	con("segmentation_type_id", "SegmentationTypeDistributorPromoEnd", scte35.SegmentationTypeDistributorPromoEnd, 0x3f),
	con("segmentation_type_id", "SegmentationTypeUnscheduledEventStart", scte35.SegmentationTypeUnscheduledEventStart, 0x40),
	con("segmentation_type_id", "SegmentationTypeUnscheduledEventEnd", scte35.SegmentationTypeUnscheduledEventEnd, 0x41),
	con("segmentation_type_id", "SegmentationTypeAltConOppStart", scte35.SegmentationTypeAltConOppStart, 0x42),
	con("segmentation_type_id", "SegmentationTypeAltConOppEnd", scte35.SegmentationTypeAltConOppEnd, 0x43),
	con("segmentation_type_id", "SegmentationTypeProviderAdBlockStart", scte35.SegmentationTypeProviderAdBlockStart, 0x44),
	con("segmentation_type_id", "SegmentationTypeProviderAdBlockEnd", scte35.SegmentationTypeProviderAdBlockEnd, 0x45),
	con("segmentation_type_id", "SegmentationTypeDistributorAdBlockStart", scte35.SegmentationTypeDistributorAdBlockStart, 0x46),
	con("segmentation_type_id", "SegmentationTypeDistributorAdBlockEnd", scte35.SegmentationTypeDistributorAdBlockEnd, 0x47),
	con("segmentation_type_id", "SegmentationTypeNetworkStart", scte35.SegmentationTypeNetworkStart, 0x50),
	con("segmentation_type_id", "SegmentationTypeNetworkEnd", scte35.SegmentationTypeNetworkEnd, 0x51),
	con("segmentation_upid_type", "SegmentationUPIDTypeNotUsed", scte35.SegmentationUPIDTypeNotUsed, 0x00),
	con("segmentation_upid_type", "SegmentationUPIDTypeUserDefined", scte35.SegmentationUPIDTypeUserDefined, 0x01),
	con("segmentation_upid_type", "SegmentationUPIDTypeISCI", scte35.SegmentationUPIDTypeISCI, 0x02),
	con("segmentation_upid_type", "SegmentationUPIDTypeAdID", scte35.SegmentationUPIDTypeAdID, 0x03),
	con("segmentation_upid_type", "SegmentationUPIDTypeUMID", scte35.SegmentationUPIDTypeUMID, 0x04),
	con("segmentation_upid_type", "SegmentationUPIDTypeISANDeprecated", scte35.SegmentationUPIDTypeISANDeprecated, 0x05),
	con("segmentation_upid_type", "SegmentationUPIDTypeISAN", scte35.SegmentationUPIDTypeISAN, 0x06),
	con("segmentation_upid_type", "SegmentationUPIDTypeTID", scte35.SegmentationUPIDTypeTID, 0x07),
	con("segmentation_upid_type", "SegmentationUPIDTypeTI", scte35.SegmentationUPIDTypeTI, 0x08),
	con("segmentation_upid_type", "SegmentationUPIDTypeADI", scte35.SegmentationUPIDTypeADI, 0x09),
	con("segmentation_upid_type", "SegmentationUPIDTypeEIDR", scte35.SegmentationUPIDTypeEIDR, 0x0a),
	con("segmentation_upid_type", "SegmentationUPIDTypeATSC", scte35.SegmentationUPIDTypeATSC, 0x0b),
	con("segmentation_upid_type", "SegmentationUPIDTypeMPU", scte35.SegmentationUPIDTypeMPU, 0x0c),
	con("segmentation_upid_type", "SegmentationUPIDTypeMID", scte35.SegmentationUPIDTypeMID, 0x0d),
	con("segmentation_upid_type", "SegmentationUPIDTypeADS", scte35.SegmentationUPIDTypeADS, 0x0e),
	con("segmentation_upid_type", "SegmentationUPIDTypeURI", scte35.SegmentationUPIDTypeURI, 0x0f),
	con("segmentation_upid_type", "SegmentationUPIDTypeUUID", scte35.SegmentationUPIDTypeUUID, 0x10),
	con("segmentation_upid_type", "SegmentationUPIDTypeSCR", scte35.SegmentationUPIDTypeSCR, 0x11),
	con("sap_type", "SAPType1", scte35.SAPType1, 0),
	con("sap_type", "SAPType2", scte35.SAPType2, 1),
	con("sap_type", "SAPType3", scte35.SAPType3, 2),
	con("sap_type", "SAPTypeNotSpecified", scte35.SAPTypeNotSpecified, 3),
	con("encryption_algorithm", "EncryptionAlgorithmNone", scte35.EncryptionAlgorithmNone, 0),
	con("encryption_algorithm", "EncryptionAlgorithmDESECB", scte35.EncryptionAlgorithmDESECB, 1),
	con("encryption_algorithm", "EncryptionAlgorithmDESCBC", scte35.EncryptionAlgorithmDESCBC, 2),
	con("encryption_algorithm", "EncryptionAlgorithmTripleDES", scte35.EncryptionAlgorithmTripleDES, 3),
	con("device_restrictions", "DeviceRestrictionsGroup0", scte35.DeviceRestrictionsGroup0, 0),
	con("device_restrictions", "DeviceRestrictionsGroup1", scte35.DeviceRestrictionsGroup1, 1),
	con("device_restrictions", "DeviceRestrictionsGroup2", scte35.DeviceRestrictionsGroup2, 2),
	con("device_restrictions", "DeviceRestrictionsNone", scte35.DeviceRestrictionsNone, 3),
	con("splice_command_type", "SpliceNullType", scte35.SpliceNullType, 0),
	con("splice_command_type", "SpliceScheduleType", scte35.SpliceScheduleType, 4),
	con("splice_command_type", "SpliceInsertType", scte35.SpliceInsertType, 5),
	con("splice_command_type", "TimeSignalType", scte35.TimeSignalType, 6),
	con("splice_command_type", "BandwidthReservationType", scte35.BandwidthReservationType, 7),
	con("splice_command_type", "PrivateCommandType", scte35.PrivateCommandType, 0xFF),
	con("splice_descriptor_tag", "AvailDescriptorTag", scte35.AvailDescriptorTag, 0),
	con("splice_descriptor_tag", "DTMFDescriptorTag", scte35.DTMFDescriptorTag, 1),
	con("splice_descriptor_tag", "SegmentationDescriptorTag", scte35.SegmentationDescriptorTag, 2),
	con("splice_descriptor_tag", "TimeDescriptorTag", scte35.TimeDescriptorTag, 3),
	con("splice_descriptor_tag", "AudioDescriptorTag", scte35.AudioDescriptorTag, 4),
	con("table_id", "TableID", scte35.TableID, 0xFC),
	con("identifier", "CUEIdentifier", scte35.CUEIdentifier, 0x43554549),
	con("ticks", "TicksPerSecond", scte35.TicksPerSecond, 90000),
}

type constCase struct {
	I int          `json:"i"`
	S *ref.Section `json:"s"`
}

func genConst(t *rapid.T) constCase {
	return constCase{gen.N(t, 0, len(constants)-1), gen.Section(t, gen.Cfg{NoBulk: true, NoStuff: true})}
}

// checkConst writes a section with the constant and reads the code off the
// bits, which must be the one of the standard.
func checkConst(c constCase, o *core.Obs) error {
	k := constants[c.I]
	o.Label(k.Kind)
	o.NonTrivial()
	s := c.S
	var seg *ref.SegDesc
	withSeg := func() {
		seg = &ref.SegDesc{ID: 7, Type: 0x35}
		s.Descs = append(s.Descs[:min(len(s.Descs), 2)], ref.Desc{Kind: ref.Seg, S: seg})
	}
	code := func(v uint64) error {
		if v != uint64(k.Want) {
			return fail("%s stands for %s %#x, which is %#x", k.Name, k.Kind, v, k.Want)
		}
		return nil
	}
	if err := code(k.Got); err != nil {
		return err
	}
	var sis *scte35.SpliceInfoSection
	switch k.Kind {
	case "segmentation_type_id":
		withSeg()
		sis = api.Section(s)
		sis.SpliceDescriptors[len(s.Descs)-1].(*scte35.SegmentationDescriptor).SegmentationTypeID = uint32(k.Got)
		seg.Type = k.Want
	case "segmentation_upid_type":
		u := scte35.NewSegmentationUPID(uint32(k.Got), []byte("\x14\x78ABCDEFGHIJ"[:map[bool]int{true: 8, false: 12}[k.Want == 8]]))
		return code(uint64(u.Type))
	case "sap_type":
		sis = api.Section(s)
		sis.SAPType = uint32(k.Got)
		s.SAP = k.Want
	case "encryption_algorithm":
		sis = api.Section(s)
		sis.EncryptedPacket.EncryptionAlgorithm = uint32(k.Got)
		if sis.EncryptedPacketFlag() != (k.Want != 0) {
			return fail("EncryptedPacketFlag() is wrong for %s", k.Name)
		}
		b, err := sis.Encode()
		if err != nil {
			return fail("not encoded: %v", err)
		}
		return code(uint64(b[4] >> 1 & 0x3F))
	case "device_restrictions":
		withSeg()
		seg.Restr = &ref.Restr{Web: true, Device: 3 - k.Want}
		sis = api.Section(s)
		sis.SpliceDescriptors[len(s.Descs)-1].(*scte35.SegmentationDescriptor).DeliveryRestrictions.DeviceRestrictions = uint32(k.Got)
		seg.Restr.Device = k.Want
	case "splice_command_type":
		return code(uint64(scte35.NewSpliceCommand(uint32(k.Got)).Type()))
	case "splice_descriptor_tag":
		return code(uint64(scte35.NewSpliceDescriptor(ref.CUEI, uint32(k.Got)).Tag()))
	default:
		return nil
	}
	b, err := sis.Encode()
	if err != nil {
		return fail("not encoded: %v", err)
	}
	if want := s.Canonical(); !bytes.Equal(b, want) {
		return fail("a section with %s is encoded as\n%x, want\n%x", k.Name, b, want)
	}
	return nil
}
