package ref

// SegNames are the segmentation_type_id names (SCTE 35 2022b Table 23).
// Where the table and common usage differ in abbreviations the library's
// documented constants are followed.
var SegNames = map[uint32]string{
	0x00: "Not Indicated",
	0x01: "Content Identification",
	0x10: "Program Start",
	0x11: "Program End",
	0x12: "Program Early Termination",
	0x13: "Program Breakaway",
	0x14: "Program Resumption",
	0x15: "Program Runover Planned",
	0x16: "Program Runover Unplanned",
	0x17: "Program Overlap Start",
	0x18: "Program Blackout Override",
	0x19: "Program Start - In Progress",
	0x20: "Chapter Start",
	0x21: "Chapter End",
	0x22: "Break Start",
	0x23: "Break End",
	0x24: "Opening Credit Start",
	0x25: "Opening Credit End",
	0x26: "Closing Credit Start",
	0x27: "Closing Credit End",
	0x30: "Provider Advertisement Start",
	0x31: "Provider Advertisement End",
	0x32: "Distributor Advertisement Start",
	0x33: "Distributor Advertisement End",
	0x34: "Provider Placement Opportunity Start",
	0x35: "Provider Placement Opportunity End",
	0x36: "Distributor Placement Opportunity Start",
	0x37: "Distributor Placement Opportunity End",
	0x38: "Provider Overlay Placement Opportunity Start",
	0x39: "Provider Overlay Placement Opportunity End",
	0x3A: "Distributor Overlay Placement Opportunity Start",
	0x3B: "Distributor Overlay Placement Opportunity End",
	0x3C: "Provider Promo Start",
	0x3D: "Provider Promo End",
	0x3E: "Distributor Promo Start",
	0x3F: "Distributor Promo End",
	0x40: "Unscheduled Event Start",
	0x41: "Unscheduled Event End",
	0x42: "Alternate Content Opportunity Start",
	0x43: "Alternate Content Opportunity End",
	0x44: "Provider Ad Block Start",
	0x45: "Provider Ad Block End",
	0x46: "Distributor Ad Block Start",
	0x47: "Distributor Ad Block End",
	0x50: "Network Start",
	0x51: "Network End",
}

// SegName names a segmentation_type_id.
func SegName(t uint32) string {
	if n, ok := SegNames[t]; ok {
		return n
	}
	return "Unknown"
}

// UPIDNames are the segmentation_upid_type names (Table 22).  EIDR is
// followed by the kind of EIDR.
var UPIDNames = map[uint32]string{
	0x00: "Not Used",
	0x01: "User Defined",
	0x02: "ISCI",
	0x03: "Ad-ID",
	0x04: "UMID",
	0x05: "ISAN (Deprecated)",
	0x06: "ISAN",
	0x07: "TID",
	0x08: "TI",
	0x09: "ADI",
	0x0B: "ATSC Content Identifier",
	0x0C: "MPU()",
	0x0D: "MID()",
	0x0E: "ADS Information",
	0x0F: "URI",
	0x10: "UUID",
	0x11: "SCR",
}

// EIDRKinds maps EIDR prefixes to names.
var EIDRKinds = map[uint32]string{5237: "Party ID", 5238: "User ID", 5239: "Service ID", 5240: "Content ID"}

// UPIDName names the type of a UPID.
func (u *UPID) Name() string {
	if u.Type == 0x0A {
		n := "EIDR: "
		if len(u.Raw) == 12 {
			n += EIDRKinds[uint32(u.Raw[0])<<8|uint32(u.Raw[1])]
		}
		return n
	}
	if n, ok := UPIDNames[u.Type]; ok {
		return n
	}
	return "Unknown"
}

// SAPName names a sap_type.
func SAPName(v uint32) string {
	return map[uint32]string{0: "Type 1", 1: "Type 2", 2: "Type 3"}[v] + map[bool]string{true: "Not Specified"}[v > 2]
}

// EncName names an encryption algorithm (Table 29); the dash is left out.
func EncName(v uint32) []string {
	switch v {
	case 0:
		return []string{"No encryption"}
	case 1:
		return []string{"DES", "ECB mode"}
	case 2:
		return []string{"DES", "CBC mode"}
	case 3:
		return []string{"Triple DES EDE3", "ECB mode"}
	}
	return []string{"User private"}
}

// DeviceName names a device_restrictions value (Table 21).
func DeviceName(v uint32) string {
	switch v {
	case 0:
		return "Restrict Group 0"
	case 1:
		return "Restrict Group 1"
	case 2:
		return "Restrict Group 2"
	case 3:
		return "None"
	}
	return "Unknown"
}
