// Package octetcounting is an offline stand-in for github.com/influxdata/go-syslog/octetcounting:
// RFC5425 framing (MSGLEN SP SYSLOG-MSG) around strict RFC5424 messages. As upstream,
// any framing or message error is reported once and ends the stream.
package octetcounting

import (
	"bufio"
	"errors"
	"io"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	syslog "github.com/influxdata/go-syslog"
)

type parser struct{ emit syslog.ParserListener }

// NewParser returns a syslog.Parser for octet-counted transports.
func NewParser() syslog.Parser { return &parser{emit: func(*syslog.Result) {}} }

func (p *parser) WithListener(f syslog.ParserListener) { p.emit = f }

func (p *parser) Parse(r io.Reader) {
	br := bufio.NewReader(r)
	for {
		var digits []byte
		for {
			c, err := br.ReadByte()
			if err != nil {
				if len(digits) == 0 {
					// upstream takes every read error for the end of the stream
					return
				}
				p.emit(&syslog.Result{Error: errors.New("found EOF, expecting a MSGLEN")})
				return
			}
			if c == ' ' && len(digits) > 0 {
				break
			}
			if c < '0' || c > '9' || (c == '0' && len(digits) == 0) || len(digits) > 8 {
				p.emit(&syslog.Result{Error: errors.New("found " + strconv.Quote(string(c)) + ", expecting a MSGLEN")})
				return
			}
			digits = append(digits, c)
		}
		n, _ := strconv.Atoi(string(digits))
		buf := make([]byte, n)
		if _, err := io.ReadFull(br, buf); err != nil {
			p.emit(&syslog.Result{Error: errors.New("found EOF, expecting a SYSLOGMSG of " + string(digits) + " octets")})
			return
		}
		m, err := parse(string(buf))
		if err != nil {
			p.emit(&syslog.Result{Error: err})
			return
		}
		p.emit(&syslog.Result{Message: m})
	}
}

type message struct {
	prio                        uint8
	version                     uint16
	ts                          *time.Time
	host, app, proc, msgid, msg *string
	sd                          *map[string]map[string]string
}

func (m *message) Valid() bool                                   { return true }
func (m *message) Priority() *uint8                              { return &m.prio }
func (m *message) Version() uint16                               { return m.version }
func (m *message) Timestamp() *time.Time                         { return m.ts }
func (m *message) Hostname() *string                             { return m.host }
func (m *message) Appname() *string                              { return m.app }
func (m *message) ProcID() *string                               { return m.proc }
func (m *message) MsgID() *string                                { return m.msgid }
func (m *message) StructuredData() *map[string]map[string]string { return m.sd }
func (m *message) Message() *string                              { return m.msg }

var errParse = errors.New("expecting an RFC5424 message")

func parse(s string) (*message, error) {
	m := &message{}
	if !strings.HasPrefix(s, "<") {
		return nil, errParse
	}
	i := strings.IndexByte(s, '>')
	if i < 2 || i > 4 {
		return nil, errParse
	}
	p, err := strconv.ParseUint(s[1:i], 10, 8)
	if err != nil || p > 191 || (s[1] == '0' && i > 2) {
		return nil, errors.New("expecting a priority value in the range 1-191 or equal to 0")
	}
	m.prio = uint8(p)
	s = s[i+1:]

	next := func() (string, bool) {
		j := strings.IndexByte(s, ' ')
		if j < 0 {
			return "", false
		}
		f := s[:j]
		s = s[j+1:]
		return f, true
	}
	f, ok := next()
	v, err := strconv.ParseUint(f, 10, 16)
	if !ok || err != nil || v == 0 || len(f) > 3 {
		return nil, errors.New("expecting a version value in the range 1-999")
	}
	m.version = uint16(v)
	if f, ok = next(); !ok {
		return nil, errParse
	}
	if f != "-" {
		t, err := time.Parse(time.RFC3339Nano, f)
		if err != nil {
			return nil, errors.New("expecting a RFC3339MICRO timestamp or a nil value")
		}
		m.ts = &t
	}
	for _, d := range []struct {
		dst **string
		max int
	}{{&m.host, 255}, {&m.app, 48}, {&m.proc, 128}, {&m.msgid, 32}} {
		if f, ok = next(); !ok || f == "" || len(f) > d.max {
			return nil, errParse
		}
		for k := 0; k < len(f); k++ {
			if f[k] < 33 || f[k] > 126 {
				return nil, errParse
			}
		}
		if f != "-" {
			g := f
			*d.dst = &g
		}
	}
	if strings.HasPrefix(s, "-") {
		s = s[1:]
	} else {
		sd := map[string]map[string]string{}
		for strings.HasPrefix(s, "[") {
			s = s[1:]
			j := strings.IndexAny(s, " ]")
			if j <= 0 || j > 32 {
				return nil, errors.New("expecting a structured data element id")
			}
			id := s[:j]
			if strings.ContainsAny(id, "=\"") {
				return nil, errors.New("expecting a structured data element id")
			}
			if _, dup := sd[id]; dup {
				return nil, errors.New("duplicate structured data element id")
			}
			params := map[string]string{}
			s = s[j:]
			for strings.HasPrefix(s, " ") {
				s = s[1:]
				e := strings.Index(s, "=\"")
				if e <= 0 || e > 32 || strings.ContainsAny(s[:e], " ]\"") {
					return nil, errors.New("expecting a structured data parameter")
				}
				name := s[:e]
				s = s[e+2:]
				var val strings.Builder
				closed := false
				for len(s) > 0 {
					c := s[0]
					if c == '\\' && len(s) > 1 && strings.IndexByte("\\\"]", s[1]) >= 0 {
						val.WriteByte(s[1])
						s = s[2:]
						continue
					}
					if c == '"' {
						closed = true
						s = s[1:]
						break
					}
					if c == ']' || c == '\\' {
						return nil, errors.New("expecting chars `]`, `\"`, and `\\` to be escaped within param value")
					}
					val.WriteByte(c)
					s = s[1:]
				}
				if !closed || !utf8.ValidString(val.String()) {
					return nil, errors.New("expecting a structured data parameter value")
				}
				params[name] = val.String()
			}
			if !strings.HasPrefix(s, "]") {
				return nil, errors.New("expecting a structured data section")
			}
			s = s[1:]
			sd[id] = params
		}
		if len(sd) == 0 {
			return nil, errors.New("expecting a structured data section containing one or more elements or a nil value")
		}
		m.sd = &sd
	}
	if s == "" {
		return m, nil
	}
	if s[0] != ' ' {
		return nil, errParse
	}
	s = s[1:]
	if s == "" {
		return m, nil
	}
	if !utf8.ValidString(s) {
		return nil, errors.New("expecting a free-form optional message in UTF-8")
	}
	m.msg = &s
	return m, nil
}
