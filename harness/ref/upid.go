package ref

import (
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"strconv"
	"strings"
)

// UPIDValue is a UPID as users of the library see it.
type UPIDValue struct {
	Type   uint32
	Format string
	FI     *uint32
	Value  string
}

// Line renders the value.
func (v UPIDValue) Line() string {
	return fmt.Sprintf("type %d format %q fi %s value %q", v.Type, v.Format, pu32(v.FI), v.Value)
}

// Latin1 decodes ISO 8859-1.
func Latin1(b []byte) string {
	var sb strings.Builder
	for _, c := range b {
		sb.WriteRune(rune(c))
	}
	return sb.String()
}

// API gives the user's view of the UPID.
func (u *UPID) API() UPIDValue {
	v := u.Decoded()
	if u.Fmt != nil {
		v.Format = *u.Fmt
	}
	return v
}

// Decoded gives the user's view of the wire UPID.
func (u *UPID) Decoded() UPIDValue {
	v := UPIDValue{Type: u.Type, Format: "text"}
	b := u.Raw
	switch u.Type {
	case 0x0A:
		switch {
		case len(b) == 12:
			v.Value = fmt.Sprintf("10.%d/%02X%02X-%02X%02X-%02X%02X-%02X%02X-%02X%02X", int(b[0])<<8|int(b[1]),
				b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9], b[10], b[11])
		case strings.Contains(string(b), "/"):
			v.Value = string(b)
		}
	case 0x05, 0x06:
		v.Format = "base-64"
		v.Value = base64.StdEncoding.EncodeToString(b)
	case 0x0C:
		v.Format = "base-64"
		pad := append(append([]byte{}, b...), 0, 0, 0, 0)
		v.FI = U32(binary.BigEndian.Uint32(pad))
		if len(b) > 4 {
			v.Value = base64.StdEncoding.EncodeToString(b[4:])
		}
	case 0x08:
		var n uint64
		for _, c := range b {
			n = n<<8 | uint64(c)
		}
		v.Value = strconv.FormatUint(n, 10)
	default:
		v.Value = Latin1(b)
	}
	return v
}

// UPIDCanonical tells whether the wire form of the UPID is the one the
// standard prescribes for its type, so that it survives a round trip.
func (u *UPID) Canonical() bool {
	switch u.Type {
	case 0x0A:
		return len(u.Raw) == 12
	case 0x0C:
		return len(u.Raw) >= 4
	case 0x08:
		return len(u.Raw) == 8
	}
	return true
}

// APILines is Lines with the UPIDs in the user's view.
func (s *Section) APILines() []string {
	lines := s.Lines()
	var out []string
	for _, l := range lines {
		out = append(out, l)
	}
	// rewrite the upid lines in place
	k := 0
	for i := range s.Descs {
		if s.Descs[i].Kind != Seg || s.Descs[i].S.Cancel {
			continue
		}
		for j := range s.Descs[i].S.UPIDs {
			pre := fmt.Sprintf("desc[%d].upid[%d]=", i, j)
			for ; k < len(out); k++ {
				if strings.HasPrefix(out[k], pre) {
					out[k] = pre + s.Descs[i].S.UPIDs[j].API().Line()
					break
				}
			}
		}
	}
	return out
}

// APILines is Lines of one descriptor with the UPIDs in the user's view.
func (d *Desc) APILines() []string {
	s := Section{Descs: []Desc{*d}}
	var out []string
	for _, l := range s.APILines() {
		if r, ok := strings.CutPrefix(l, "desc[0]."); ok {
			out = append(out, r)
		}
	}
	return out
}
