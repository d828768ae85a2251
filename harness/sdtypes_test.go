package vharness

import (
	"github.com/nathanaelle/syslog5424/v2/sdata"
)

// rawElem is a structured-data element with fixed wire form, given by the user of the library.
type rawElem string

func rawSD(s string) sdata.StructuredData { return rawElem(s) }

func (r rawElem) SDID() sdata.SDID             { return rawID{} }
func (r rawElem) Marshal5424() ([]byte, error) { return []byte(r), nil }

type rawID struct{}

func (rawID) String() string                              { return "raw" }
func (rawID) IsIANA() bool                                { return false }
func (rawID) GetPEN() uint64                              { return 32473 }
func (rawID) Found(b []byte) (sdata.StructuredData, bool) { return nil, false }
func (rawID) MarshalText() ([]byte, error)                { return []byte("raw"), nil }
