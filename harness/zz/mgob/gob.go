// Package mgob is the model of encoding/gob used when code that encodes
// payloads is executed symbolically. An encoded value is a token that stands
// for a deep copy of the value made at the moment of encoding; decoding yields
// that copy for a receiver of the same type and an error for any other.
package mgob

import (
	"encoding/gob"
	"errors"
	"io"

	"github.com/BTBurke/monny/zzverif/sym"
)

var (
	encoders = map[*gob.Encoder]io.Writer{}
	decoders = map[*gob.Decoder]io.Reader{}
	values   []interface{}
	names    = map[string]string{}
)

//sym:model encoding/gob.Register
func Register(v interface{}) {
	if v == nil {
		panic("gob: registering nil")
	}
	base := sym.TypeName(sym.Deref(v))
	name := sym.TypeName(v)
	if n, ok := names[base]; ok && n != name {
		panic("gob: registering duplicate names for " + base)
	}
	names[base] = name
}

//sym:model encoding/gob.NewEncoder
func NewEncoder(w io.Writer) *gob.Encoder {
	e := new(gob.Encoder)
	encoders[e] = w
	return e
}

//sym:model (*encoding/gob.Encoder).Encode
func Encode(e *gob.Encoder, v interface{}) error {
	if v == nil {
		return errors.New("gob: cannot encode nil value")
	}
	d := sym.Deref(v)
	if d == nil {
		panic("gob: cannot encode nil pointer of type " + sym.TypeName(v))
	}
	switch sym.TypeClass(d) {
	case "unsupported":
		return errors.New("gob: type " + sym.TypeName(d) + " not supported")
	case "unexported":
		return errors.New("gob: type " + sym.TypeName(d) + " has no exported fields")
	}
	c := sym.DeepCopy(d)
	var w io.Writer
	var id int
	w = encoders[e]
	id = len(values)
	values = append(values, c)
	_, err := w.Write([]byte{0xf0, byte(id)})
	return err
}

//sym:model encoding/gob.NewDecoder
func NewDecoder(r io.Reader) *gob.Decoder {
	d := new(gob.Decoder)
	decoders[d] = r
	return d
}

//sym:model (*encoding/gob.Decoder).Decode
func Decode(d *gob.Decoder, v interface{}) error {
	var r io.Reader
	r = decoders[d]
	var b [2]byte
	if n, err := r.Read(b[:1]); n == 0 {
		if err == nil {
			err = io.EOF
		}
		return err
	}
	if n, _ := r.Read(b[1:]); n == 0 || b[0] != 0xf0 {
		return errors.New("gob: bad data")
	}
	if v == nil {
		return nil
	}
	var val interface{}
	if int(b[1]) >= len(values) {
		return errors.New("gob: bad data")
	}
	val = values[int(b[1])]
	if !sym.GobSet(v, sym.DeepCopy(val)) {
		return errors.New("gob: wrong type (" + sym.TypeName(v) + ") for received value " + sym.TypeName(val))
	}
	return nil
}
