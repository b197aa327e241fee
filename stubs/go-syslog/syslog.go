// Package syslog is an offline stand-in for github.com/influxdata/go-syslog (v2 API).
package syslog

import (
	"io"
	"time"
)

// Message represents an RFC5424 syslog message.
type Message interface {
	Valid() bool
	Priority() *uint8
	Version() uint16
	Timestamp() *time.Time
	Hostname() *string
	Appname() *string
	ProcID() *string
	MsgID() *string
	StructuredData() *map[string]map[string]string
	Message() *string
}

// Result wraps the outcomes obtained parsing a syslog message.
type Result struct {
	Message Message
	Error   error
}

// ParserListener is a function that receives syslog parsing results, one by one.
type ParserListener func(*Result)

// Parser reads a stream of syslog messages.
type Parser interface {
	Parse(r io.Reader)
	WithListener(ParserListener)
}
