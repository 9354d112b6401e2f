//go:build go1.23

// Package vuuid replaces github.com/google/uuid with deterministic unique values.
package vuuid

import (
	"fmt"

	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
	"github.com/google/uuid"
)

type UUID = uuid.UUID

var (
	Parse     = uuid.Parse
	MustParse = uuid.MustParse
	Nil       = uuid.Nil
)

func NewString() string {
	return fmt.Sprintf("00000000-0000-4000-8000-%012d", vsched.NextUUID())
}
func New() UUID                   { return uuid.MustParse(NewString()) }
func NewRandom() (UUID, error)    { return New(), nil }
func NewUUID() (UUID, error)      { return New(), nil }
func Must(u UUID, err error) UUID { return u }
