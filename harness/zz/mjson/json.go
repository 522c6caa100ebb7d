// Package mjson is the model of encoding/json: an encoded value is a token
// that stands for a deep copy made at the moment of encoding, decoding parses
// text into the generic types.
package mjson

import (
	"encoding/json"
	"errors"
	"strconv"
	"unicode/utf8"

	"github.com/BTBurke/monny/zzverif/sym"
)

var values []interface{}

// FailFor is the type of the values that cannot be encoded, because of a time
// they carry; Failed counts them.
var (
	FailFor string
	Failed  int
)

//sym:model encoding/json.Marshal
func Marshal(v interface{}) ([]byte, error) {
	if sym.TypeName(v) == FailFor && FailFor != "" {
		Failed++
		return nil, errors.New("json: error calling MarshalJSON for type time.Time: Time.MarshalJSON: year outside of range [0,9999]")
	}
	values = append(values, sym.DeepCopy(v))
	return []byte{0xf2, byte(len(values) - 1)}, nil
}

//sym:model encoding/json.MarshalIndent
func MarshalIndent(v interface{}, prefix, indent string) ([]byte, error) { return Marshal(v) }

// Value is the value that b encodes.
func Value(b []byte) (interface{}, bool) {
	if len(b) != 2 || b[0] != 0xf2 || int(b[1]) >= len(values) {
		return nil, false
	}
	return values[b[1]], true
}

//sym:model encoding/json.Valid
func Valid(data []byte) bool {
	p := &parser{b: data}
	p.top(false)
	return !p.bad
}

//sym:model encoding/json.Unmarshal
func Unmarshal(data []byte, v interface{}) error {
	// the text is validated as a whole before anything is stored
	p := &parser{b: data}
	if p.top(false); p.bad {
		return errors.New("invalid JSON text")
	}
	switch out := v.(type) {
	case *interface{}:
		p := &parser{b: data}
		*out = p.top(true)
		return p.err
	case *map[string]interface{}:
		p := &parser{b: data}
		p.space()
		if !p.object() {
			return p.mismatch()
		}
		if *out == nil {
			*out = map[string]interface{}{}
		}
		p.members(func(k string, start int) {
			(*out)[k] = p.value(true)
		})
		return p.err
	case *map[string]json.RawMessage:
		p := &parser{b: data}
		p.space()
		if !p.object() {
			return p.mismatch()
		}
		if *out == nil {
			*out = map[string]json.RawMessage{}
		}
		p.members(func(k string, start int) {
			p.value(false)
			(*out)[k] = json.RawMessage(append([]byte(nil), p.b[start:p.i]...))
		})
		return p.err
	case *string:
		p := &parser{b: data}
		x := p.top(true)
		if s, ok := x.(string); ok {
			*out = s
			return nil
		}
		if x == nil {
			return nil
		}
		return errors.New("json: cannot unmarshal into string")
	case *[]interface{}:
		p := &parser{b: data}
		x := p.top(true)
		if s, ok := x.([]interface{}); ok {
			*out = s
			return p.err
		}
		if x == nil {
			return nil
		}
		return errors.New("json: cannot unmarshal into list")
	default:
		sym.Cut("JSON decoded into another type")
	}
	return nil
}

type parser struct {
	b   []byte
	i   int
	bad bool
	err error
}

func (p *parser) object() bool { return p.i < len(p.b) && p.b[p.i] == '{' }

// mismatch is the result for a text that is not an object.
func (p *parser) mismatch() error {
	if p.i < len(p.b) && p.b[p.i] == 'n' {
		return nil
	}
	return errors.New("json: cannot unmarshal into map")
}

func (p *parser) space() {
	for p.i < len(p.b) {
		switch p.b[p.i] {
		case ' ', '\t', '\r', '\n':
			p.i++
		default:
			return
		}
	}
}

func (p *parser) fail() interface{} {
	p.bad = true
	return nil
}

func (p *parser) top(keep bool) interface{} {
	p.space()
	v := p.value(keep)
	if p.bad {
		return nil
	}
	p.space()
	if p.i != len(p.b) {
		p.bad = true
	}
	return v
}

func (p *parser) lit(s string) bool {
	if len(p.b)-p.i < len(s) {
		return false
	}
	for k := 0; k < len(s); k++ {
		if p.b[p.i+k] != s[k] {
			return false
		}
	}
	p.i += len(s)
	return true
}

func (p *parser) value(keep bool) interface{} {
	if p.i >= len(p.b) {
		return p.fail()
	}
	switch c := p.b[p.i]; c {
	case '{':
		m := map[string]interface{}{}
		p.members(func(k string, start int) {
			v := p.value(keep)
			if keep {
				m[k] = v
			}
		})
		return m
	case '[':
		p.i++
		l := []interface{}{}
		p.space()
		if p.i < len(p.b) && p.b[p.i] == ']' {
			p.i++
			return l
		}
		for {
			p.space()
			v := p.value(keep)
			if p.bad {
				return nil
			}
			l = append(l, v)
			p.space()
			if p.i >= len(p.b) {
				return p.fail()
			}
			c := p.b[p.i]
			p.i++
			if c == ']' {
				return l
			}
			if c != ',' {
				return p.fail()
			}
		}
	case '"':
		return p.str()
	case 't':
		if p.lit("true") {
			return true
		}
		return p.fail()
	case 'f':
		if p.lit("false") {
			return false
		}
		return p.fail()
	case 'n':
		if p.lit("null") {
			return nil
		}
		return p.fail()
	default:
		if c == '-' || c >= '0' && c <= '9' {
			return p.number(keep)
		}
		return p.fail()
	}
}

func (p *parser) members(f func(key string, start int)) {
	p.i++
	p.space()
	if p.i < len(p.b) && p.b[p.i] == '}' {
		p.i++
		return
	}
	for {
		p.space()
		if p.i >= len(p.b) || p.b[p.i] != '"' {
			p.bad = true
			return
		}
		k := p.str()
		if p.bad {
			return
		}
		p.space()
		if p.i >= len(p.b) || p.b[p.i] != ':' {
			p.bad = true
			return
		}
		p.i++
		p.space()
		f(k, p.i)
		if p.bad {
			return
		}
		p.space()
		if p.i >= len(p.b) {
			p.bad = true
			return
		}
		c := p.b[p.i]
		p.i++
		if c == '}' {
			return
		}
		if c != ',' {
			p.bad = true
			return
		}
	}
}

func (p *parser) digits() bool {
	s := p.i
	for p.i < len(p.b) && p.b[p.i] >= '0' && p.b[p.i] <= '9' {
		p.i++
	}
	return p.i > s
}

func (p *parser) number(keep bool) interface{} {
	s := p.i
	if p.b[p.i] == '-' {
		p.i++
	}
	if p.i < len(p.b) && p.b[p.i] == '0' {
		p.i++
	} else if !p.digits() {
		return p.fail()
	}
	if p.i < len(p.b) && p.b[p.i] == '.' {
		p.i++
		if !p.digits() {
			return p.fail()
		}
	}
	if p.i < len(p.b) && (p.b[p.i] == 'e' || p.b[p.i] == 'E') {
		p.i++
		if p.i < len(p.b) && (p.b[p.i] == '+' || p.b[p.i] == '-') {
			p.i++
		}
		if !p.digits() {
			return p.fail()
		}
	}
	if !keep {
		return nil
	}
	t := make([]byte, p.i-s)
	for k := range t {
		t[k] = byte(sym.Conc(int(p.b[s+k])))
	}
	f, err := strconv.ParseFloat(string(t), 64)
	if err != nil {
		p.err = errors.New("json: number out of range")
		return nil
	}
	return f
}

func (p *parser) hex() rune {
	if len(p.b)-p.i < 4 {
		p.bad = true
		return 0
	}
	r := rune(0)
	for k := 0; k < 4; k++ {
		c := rune(p.b[p.i+k])
		switch {
		case c >= '0' && c <= '9':
			c -= '0'
		case c >= 'a' && c <= 'f':
			c -= 'a' - 10
		case c >= 'A' && c <= 'F':
			c -= 'A' - 10
		default:
			p.bad = true
			return 0
		}
		r = r*16 + c
	}
	p.i += 4
	return r
}

func (p *parser) str() string {
	p.i++
	var out []byte
	for {
		if p.i >= len(p.b) {
			p.bad = true
			return ""
		}
		c := p.b[p.i]
		switch {
		case c == '"':
			p.i++
			return string(out)
		case c < 0x20:
			p.bad = true
			return ""
		case c == '\\':
			p.i++
			if p.i >= len(p.b) {
				p.bad = true
				return ""
			}
			c := p.b[p.i]
			p.i++
			switch c {
			case '"', '\\', '/':
				out = append(out, c)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				r := p.hex()
				if p.bad {
					return ""
				}
				if r >= 0xd800 && r < 0xe000 {
					low := rune(0)
					if r < 0xdc00 && len(p.b)-p.i >= 6 && p.b[p.i] == '\\' && p.b[p.i+1] == 'u' {
						save := p.i
						p.i += 2
						low = p.hex()
						if p.bad {
							return ""
						}
						if low >= 0xdc00 && low < 0xe000 {
							r = (r-0xd800)<<10 | (low - 0xdc00) + 0x10000
						} else {
							p.i = save
							r = utf8.RuneError
						}
					} else {
						r = utf8.RuneError
					}
				}
				var e [4]byte
				n := utf8.EncodeRune(e[:], r)
				out = append(out, e[:n]...)
			default:
				p.bad = true
				return ""
			}
		case c < 0x80:
			out = append(out, c)
			p.i++
		default:
			r, n := utf8.DecodeRune(p.b[p.i:])
			if r == utf8.RuneError && n == 1 {
				out = append(out, 0xef, 0xbf, 0xbd)
			} else {
				out = append(out, p.b[p.i:p.i+n]...)
			}
			p.i += n
		}
	}
}
