// Package log is a minimal offline stand-in for github.com/go-kit/kit/log.
package log

// Logger is the fundamental interface for all log operations.
type Logger interface {
	Log(keyvals ...interface{}) error
}

type nop struct{}

func (nop) Log(...interface{}) error { return nil }

// NewNopLogger returns a logger that doesn't do anything.
func NewNopLogger() Logger { return nop{} }
