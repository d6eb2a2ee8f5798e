package api

import (
	"fmt"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// Leftovers reports a field of a freshly decoded section that holds something
// although the signal does not carry the field: anything past the cancel
// indicator of a cancelled event, components of an event in program mode, a
// pre-roll.
func Leftovers(sis *scte35.SpliceInfoSection) error {
	if sis.PreRollMilliSeconds != 0 {
		return fmt.Errorf("something the signal does not carry: pre-roll of %d ms", sis.PreRollMilliSeconds)
	}
	return SwitchedOff(sis)
}

// SwitchedOff is Leftovers for a section that may have come from a document.
func SwitchedOff(sis *scte35.SpliceInfoSection) error {
	bad := func(f string, a ...any) error { return fmt.Errorf("something the section does not carry: "+f, a...) }
	switch v := sis.SpliceCommand.(type) {
	case *scte35.SpliceInsert:
		switch {
		case v == nil:
		case v.SpliceEventCancelIndicator:
			if v.Program != nil || len(v.Components) > 0 || v.BreakDuration != nil || v.SpliceImmediateFlag ||
				v.OutOfNetworkIndicator || v.UniqueProgramID != 0 || v.AvailNum != 0 || v.AvailsExpected != 0 {
				return bad("cancelled splice_insert %+v", *v)
			}
		case v.Program != nil && len(v.Components) > 0:
			return bad("components of a splice_insert in program mode: %+v", v.Components)
		}
	case *scte35.SpliceSchedule:
		if v == nil {
			break
		}
		for i := range v.Events {
			e := &v.Events[i]
			switch {
			case e.SpliceEventCancelIndicator:
				if e.Program != nil || len(e.Components) > 0 || e.BreakDuration != nil || e.OutOfNetworkIndicator ||
					e.UniqueProgramID != 0 || e.AvailNum != 0 || e.AvailsExpected != 0 {
					return bad("cancelled event %d %+v", i, *e)
				}
			case e.Program != nil && len(e.Components) > 0:
				return bad("components of event %d in program mode: %+v", i, e.Components)
			}
		}
	}
	for i, d := range sis.SpliceDescriptors {
		v, ok := d.(*scte35.SegmentationDescriptor)
		if !ok || v == nil || !v.SegmentationEventCancelIndicator {
			continue
		}
		if v.DeliveryRestrictions != nil || len(v.Components) > 0 || v.SegmentationDuration != nil || len(v.SegmentationUPIDs) > 0 ||
			v.SegmentationTypeID != 0 || v.SegmentNum != 0 || v.SegmentsExpected != 0 || v.SubSegmentNum != nil || v.SubSegmentsExpected != nil {
			return bad("cancelled segmentation_descriptor (descriptor %d) %+v", i, *v)
		}
	}
	return nil
}
