package fuzz

import (
	"io"
	"log"
	"testing"

	"github.com/Comcast/scte35-go/pkg/scte35"

	_ "verifharness/checks"
	"verifharness/core"
)

func FuzzSub(f *testing.F) {
	scte35.Logger = log.New(io.Discard, "", 0)
	core.FuzzTarget(f)
}
